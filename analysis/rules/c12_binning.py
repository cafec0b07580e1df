"""C12: binning of a column, distribution of weights over bins."""
from registry import rule
from interp import upd
from _bspec import *
from fractions import Fraction

ASM = ["real-number semantics of f64 arithmetic", "bin edges and values are not NaN"]
MIN, MAX = sym("const:f64::MIN"), sym("const:f64::MAX")
EPS = num(Fraction("0.001"))


def as_map(t):
    """a map filled one key after the other is the map collected from the pairs"""
    def f(x):
        if x.op == "tallyon" and x.args[0].op == "mapempty" and x.args[1].op == "tally" and x.args[2] == "=":
            i, (d, g, kv) = open_(x.args[1])
            if kv.op == "kv" and isinstance(g, T):
                return mk("call", "collect_HashMap", seq(i, d, g, mk("tuple", *kv.args)))
        return x
    return rewrite(t, f)


def facts(t, m, away):
    """instantiate symbols; indices listed in `away` differ from each other"""
    t = subst(t, m)

    def differ(a, b):
        d = sub(a, b)
        return any(d is x or d is neg(x) for x in away)

    def f(x):
        if x.op == "at" and x.args[0].op == "upd":
            base, j, v = x.args[0].args[:3]
            if j is x.args[1]:
                return v
            if distinct(j, x.args[1]) or differ(j, x.args[1]):
                return f(at(base, x.args[1]))
        if x.op == "zero" and any(x is zero(d) for d in away):
            return FALSE
        return x
    for _ in range(4):
        n = rewrite(t, f)
        if n is t:
            break
        t = n
    return t


def edge(bin_, name):
    return mark_num(proj(proj(bin_, "0"), name))


def settle(t, m):
    """truth values for indicator terms"""
    if not m:
        return t

    def f(x):
        v = m.get(x)
        return v if v is not None else x
    return rewrite(t, f)


def column(kind):
    """smallest and largest value of the column, instantiated for one form of storage"""
    col = mk("proj", sym("a0"), kind, "0")
    smp = proj(col, "sample")
    i = fresh()
    x = mark_num(at(smp, i)) if kind == "Dense" else mark_num(proj(at(smp, i), "1"))
    lo, hi = (bind(o, i, dom(ZERO, length(smp)), x) for o in ("minof", "maxof"))
    if kind == "Sparse":
        hz = lt(length(smp), mark_num(proj(col, "n_sample")), True)
        lo = ite(and_(pos(lo), hz), ZERO, lo)
        hi = ite(and_(pos(neg(hi)), hz), ZERO, hi)
    same = zero(sub(hi, lo))
    return ite(same, sub(lo, EPS), lo), ite(same, add(hi, EPS), hi)


def cut(ctx, mod, kind):
    key = f"{mod.split('::')[0]}.cut.{kind}"
    b = ctx.fn("cut", "Bins", module=mod, key=key)
    if not b:
        return
    for x in ("n_sample",):
        mark_num(proj(mk("proj", sym("a0"), kind, "0"), x))
    r = ctx.run(b)
    a0, n = sym("a0"), sym("a1")
    t = rewrite(r.ret, lambda x: (TRUE if x.args[1] == kind else FALSE) if x.op == "is" and x.args[0] is a0 else x)
    t = proj(t, "0")
    guard = TRUE
    i = fresh()
    D = dom(ZERO, n)
    if t.op == "seq":
        i, (d, guard, e) = open_(t)
        ctx.same(key + ".count", d, D, b, f"{kind} column: one bin per requested bin")
    elif t.op == "upd":
        ctx.same(key + ".count", length(t), n, b, f"{kind} column: one bin per requested bin")
        e = at(t, i)
    else:
        return ctx.undecided(key, b, f"bins are built as {clip(t, 200)}")
    lo, hi = column(kind)
    w = div(sub(hi, lo), n)
    j, m = fresh(), fresh()
    for name, k, nv, away in (("only", ZERO, ONE, []), ("first", ZERO, add(m, num(2)), [add(m, ONE)]),
                              ("last", add(m, ONE), add(m, num(2)), [add(m, ONE)]),
                              ("inner", add(j, ONE), add(m, num(3)), [add(j, ONE), sub(add(j, ONE), add(m, num(2)))])):
        v = facts(e, {i: k, n: nv}, away)
        s, f = edge(v, "start"), edge(v, "end")
        ws = MIN if name in ("only", "first") else subst(add(lo, mul(k, w)), {n: nv})
        wf = MAX if name in ("only", "last") else subst(add(lo, mul(add(k, ONE), w)), {n: nv})
        ctx.same(f"{key}.{name}.start", together(s), together(ws), b, f"{kind} column, {name} bin: left edge")
        ctx.same(f"{key}.{name}.end", together(f), together(wf), b, f"{kind} column, {name} bin: right edge")
        if True:
            g = facts(guard, {i: k, n: nv}, away) if guard is not TRUE else TRUE
            ctx.same(f"{key}.{name}.kept", g, lt(s, f), b, f"{kind} column, {name} bin: exactly the bins with start < end are kept")


def positions(c, s, f, x):
    """value of a condition for x < s, x = s, s < x < f, x = f, x > f"""
    out = []
    for a, b in ((-1, -1), (0, -1), (1, -1), (1, 0), (1, 1)):
        m = {}
        for d, v in ((sub(x, s), a), (sub(x, f), b), (sub(f, s), 1)):
            m[pos(d)] = num(int(v > 0))
            m[pos(neg(d))] = num(int(v < 0))
            m[zero(d)] = num(int(v == 0))
        r = settle(c, m)
        out.append(1 if r is TRUE else 0 if r is FALSE else None)
    return out


def norm_pos(t, bins, x, p):
    """recognise the ways to find the bin that contains x (bins are adjacent and not empty)"""
    def g(y):
        if y.op in ("find", "any"):
            j, (d, c) = open_(y)
            if equal(d, dom(ZERO, length(bins))):
                v = positions(c, edge(at(bins, j), "start"), edge(at(bins, j), "end"), x)
                if v in ([0, 1, 1, 0, 0], [1, 1, 1, 0, 0]):
                    return p if y.op == "find" else TRUE
        return y
    return rewrite(t, g)


def pack(ctx, mod):
    key = f"{mod.split('::')[0]}.pack"
    b = ctx.fn("pack", "Bins", module=mod, key=key, private=True)
    if not b:
        return
    REST = "remove_zero_weight_pack_and_normalize"
    op = lambda k, f: ("Feature as" in str(k) and str(k).endswith("::index")) or str(k).split("::")[-1] == REST
    r = ctx.run(b, opaque=op)
    bins = unwrap_field(r, b)
    rows, feat = sym("a1"), sym("a2")
    calls = [e for e in r.events if e.kind == "call" and "Feature as" in str(e.key) and str(e.key).endswith("::index")]
    if len(calls) != 1:
        return ctx.undecided(key, b, "the column is not read once per row")
    read = calls[0]
    if read.args[0] is not feat:
        return ctx.undecided(key, b, "the column is not the one given")
    ri = [l["idx"] for l in r.loops if read.args[1] is at(rows, l["idx"])]
    ctx.ob(key + ".row", bool(ri), b, f"the value of the row itself decides about the bin: {clip(read.args[1], 100)}")
    p = mark_num(fresh())
    for l in r.loops:
        i = l["idx"]
        x = mark_num(read.res)
        for k in l.get("open", []):
            l["post"][k] = norm_pos(l["post"][k], bins, x, p)
    row = lambda i: at(rows, i)
    n = length(bins)
    if "decision" in mod:
        def nxt(mu, i):
            m = at(mu["weights"], p)
            y = mk("trunc", A(sym("a3"), row(i)))
            old = mk("mapget", m, y, ZERO)
            return upd(mu["weights"], p, mk("mapset", m, y, add(A(sym("a4"), row(i)), mark_num(old))))
        j = fresh()
        roles = {"weights": (seq(j, dom(ZERO, n), TRUE, mk("mapempty")), nxt)}
        names = ["weights"]
    else:
        def role(name, arg):
            j = fresh()
            return (seq(j, dom(ZERO, n), TRUE, ZERO),
                    lambda mu, i: upd(mu[name], p, add(mark_num(at(mu[name], p)), A(arg, row(i)))))
        roles = {"gradient": role("gradient", sym("a3")), "hessian": role("hessian", sym("a4"))}
        names = ["gradient", "hessian"]
    best = loop_spec(ctx, key, b, r, dom(ZERO, length(rows)), roles, "every row of the node adds its value to the bin that contains it")
    if best:
        _, l, asg = best
        last = [e for e in r.events if e.kind == "call" and str(e.key).split("::")[-1] == REST]
        if len(last) != 1:
            return ctx.undecided(key + ".all", b, "no single call that merges empty bins")
        want = [l["out"][asg[x]] for x in names]
        ctx.ob(key + ".all", list(last[0].args[1:]) == want and last[0].args[0] is sym("self") and r.ret.op == "call", b,
               "the collected weights of all bins, in order, are the packed column")


def unwrap_field(r, b):
    """the vector inside self"""
    for e in r.events:
        if e.kind == "bsearch":
            return e.args[0]
    return proj(sym("self"), "0")


def merged(ctx, mod):
    """adjacent bins again after dropping those without weight"""
    key = f"{mod.split('::')[0]}.merge"
    b = ctx.fn("remove_zero_weight_pack_and_normalize", "Bins", module=mod, key=key, private=True)
    if not b:
        return
    r = ctx.run(b)
    tree = "decision" in mod
    bins = proj(sym("self"), "0")
    ret = r.ret
    n = length(bins)
    A1, A2 = sym("a1"), sym("a2")
    if tree:
        env = {length(A1): n}
        i = fresh()
        total = SUM(length(A1), lambda k: msum_(at(A1, k)))
        wt = lambda k: [mapdiv(at(A1, k), total)]
        full = lambda k: [[(pos(length(at(A1, k)), True), TRUE)]]
        empty = [{pos(length(at(A1, ZERO)), True): FALSE}]
        nonempty = [{pos(length(at(A1, ZERO)), True): TRUE}]
        keep = lambda k: pos(length(at(A1, k)), True)
    else:
        env = {length(A1): n, length(A2): n}
        wt = lambda k: [A(A1, k), A(A2, k)]
        g0, h0 = zero(A(A1, ZERO)), zero(A(A2, ZERO))
        empty = [{g0: TRUE, h0: TRUE}]
        nonempty = [{g0: FALSE}, {h0: FALSE}]
        keep = lambda k: not_(and_(zero(A(A1, k)), zero(A(A2, k))))
    loops = [l for l in r.loops if any(l["post"][k].op == "concat" and l["post"][k].args[0] is l["mu"][k] for k in l["open"]) and not l["while"] and not l["brk"] and not l["rets"]]
    if len(loops) == 1:
        l = loops[0]
        ks = [k for k in l["open"] if l["post"][k].op == "concat"]
        if len(ks) == 1 and ret is l["out"].get(ks[0]) and l["pre"][ks[0]].op == "list" and not l["pre"][ks[0]].args:
            p = l["post"][ks[0]].args
            rows = contains(l["dom"], lambda x: x.op in ("seq", "sum"))
            if len(p) == 2 and p[1].op == "list" and len(p[1].args) == 1 and rows and all(equal(canon(open_(x)[1][0], env), canon(dom(ZERO, sub(n, ONE)), env)) for x in rows):
                return ctx.ob(key + ".last", False, b, "at most one merged bin per bin after the first one is given out: the last bin with weight is lost")
    if len(loops) != 1 or ret.op != "concat":
        return ctx.undecided(key, b, "no single loop that emits the merged bins")
    l = loops[0]
    lists = [k for k in l["open"] if l["post"][k].op == "concat"]
    if len(lists) != 1 or len(ret.args) != 2 or ret.args[0] is not l["out"][lists[0]] or ret.args[1].op != "list" or len(ret.args[1].args) != 1:
        return ctx.undecided(key, b, "the merged bins are not one list built by the loop plus a last one")
    L = lists[0]
    step = l["post"][L]
    if len(step.args) != 2 or step.args[1].op != "list" or len(step.args[1].args) != 1:
        return ctx.undecided(key, b, "more than one bin per round")
    ctx.ob(key + ".start", l["pre"][L].op == "list" and not l["pre"][L].args, b, "the list of merged bins starts empty")
    E, last = step.args[1].args[0], ret.args[1].args[0]
    carried = [k for k in l["open"] if k != L]
    F = []

    def grab(x):
        if x.op == "nth" and x.args[0] not in F:
            F.append(x.args[0])
        return x
    for t in [E, last, l["dom"]] + [l["pre"][k] for k in carried] + [l["post"][k] for k in carried]:
        rewrite(t, grab)
    F = [f for f in F if not fvs(f) & {l["idx"]}]
    if len({canon(f, env) for f in F}) != 1:
        return ctx.undecided(key, b, "the bins with weight are not one filtered sequence")
    q, (d, g, elem) = open_(F[0])
    ctx.same(key + ".others", d, dom(ZERO, sub(n, ONE)), b, "every bin after the first one is looked at", env)
    ctx.same(key + ".filter", g, keep(add(q, ONE)), b, "exactly the bins without weight are dropped", env)
    sel = lambda k: mark_num(mk("sel", k))
    zeros = bind("sum", q, d, g)

    def pick(x):
        if x.op == "nth" and x.args[0] in F:
            return subst(elem, {q: sel(x.args[1])})
        return x
    idx = l["idx"]

    def at_(t, k, state, case):
        t = subst(t, {idx: k})
        if state:
            t = subst(t, {l["mu"][p]: v for p, v in state.items()})
        return norm(t, case)

    def norm(t, case):
        t = rewrite(settle(t, case), pick)
        return rewrite(settle(t, case), lambda x: x)

    def wsame(k, got, pos_, what):
        comps = [proj(got, str(c + 1)) for c in range(len(wt(ZERO)))]
        ws = wt(pos_)
        for c, (x, y) in enumerate(zip(comps, ws)):
            ctx.same(f"{k}.weight{c or ''}", x, y, b, what + ": weight", env)
    BS = lambda k: edge(at(bins, k), "start")
    BE = lambda k: edge(at(bins, k), "end")
    cnt = sum_(q, d, g)
    for name, cs in (("occupied", nonempty), ("empty", empty)):
        for ci, case in enumerate(cs):
            case = dict(case)
            K = f"{key}.{name}" + (str(ci) if len(cs) > 1 else "")
            if name == "empty":
                case[pos(cnt, True)] = TRUE
                case[pos(cnt)] = TRUE
                first, P = add(sel(ZERO), ONE), (lambda k: add(sel(k), ONE))
            else:
                first, P = ZERO, (lambda k: add(sel(sub(k, ONE)), ONE))
            N = norm(length_of(l["dom"]), case)
            ctx.same(K + ".rounds", N, sub(cnt, ONE) if name == "empty" else cnt, b, f"first bin {name}: every further bin with weight gets its own entry", env)
            j = fresh()
            pre = {p: norm(l["pre"][p], case) for p in carried}

            def state(k):
                """carried state after the round with number k"""
                if k is ZERO:
                    return {p: at_(l["post"][p], ZERO, pre, case) for p in carried}
                prev = {p: at_(l["post"][p], sub(k, ONE), None, case) for p in carried}
                return {p: at_(l["post"][p], k, prev, case) for p in carried}
            where = lambda k: first if k is ZERO else P(k)
            ends = lambda k: BE(where(k))
            cutat = lambda k: div(add(ends(k), BS(P(add(k, ONE)))), num(2))
            begin = lambda k: BS(ZERO) if k is ZERO else cutat(sub(k, ONE))
            for kn, k, st in (("first", ZERO, pre), ("second", ONE, state(ZERO)), ("later", add(j, num(2)), None)):
                if kn == "later":
                    st = {p: at_(l["post"][p], add(j, ONE), {p2: at_(l["post"][p2], j, None, case) for p2 in carried}, case) for p in carried}
                e = at_(E, k, st, case)
                ctx.same(f"{K}.{kn}.start", edge(proj(e, "0"), "start"), begin(k), b, f"first bin {name}, {kn} entry: starts where the previous one ends", env)
                ctx.same(f"{K}.{kn}.end", edge(proj(e, "0"), "end"), cutat(k), b, f"first bin {name}, {kn} entry: ends in the middle of the gap to the next bin with weight", env)
                wsame(f"{K}.{kn}", e, where(k), f"first bin {name}, {kn} entry")
            outs = {l["out"][p]: p for p in carried}
            for kn, k, st in (("alone", ZERO, pre), ("end1", ONE, state(ZERO)), ("end", add(j, num(2)), None)):
                if kn == "end":
                    st = {p: at_(l["post"][p], add(j, ONE), {p2: at_(l["post"][p2], j, None, case) for p2 in carried}, case) for p in carried}
                e = norm(subst_terms(last, {o: st[p] for o, p in outs.items()}), case)
                ctx.same(f"{K}.{kn}.start", edge(proj(e, "0"), "start"), begin(k), b, f"first bin {name}, last entry: starts where the previous one ends", env)
                ctx.same(f"{K}.{kn}.end", edge(proj(e, "0"), "end"), ends(k), b, f"first bin {name}, last entry: keeps the end of the last bin with weight", env)
                wsame(f"{K}.{kn}", e, where(k), f"first bin {name}, last entry")


def subst_terms(t, m):
    return subst(t, m)


def length_of(d):
    return sub(d.args[1], d.args[0])


def msum_(m):
    return SUM(length(m), lambda j: mark_num(at(mk("call", "map_values", m), j)))


def mapdiv(m, total):
    v = mark_num(fresh())
    return mk("mapmap", m, bind("lam", v, div(v, total)))


@rule("C12", "Closed forms of the bin builder (edge of the k-th bin for symbolic number of bins, by position), recurrence of the loop that distributes rows over bins, and value-graph comparison of every entry "
      "(first, second, general, last) of the loop that merges bins without weight.", ASM, floor=60)
def c12(ctx):
    for mod in ("decision_tree::bin", "regression_tree::bin"):
        for kind in ("Dense", "Sparse"):
            cut(ctx, mod, kind)
        b = ctx.fn("contains", "Bin", module=mod, key=mod + ".contains", private=True)
        if b:
            r = ctx.run(b)
            x, rg = mark_num(sym("a1")), sym("self")
            s, f = edge(rg, "start"), edge(rg, "end")
            ctx.same(mod.split("::")[0] + ".contains", r.ret, and_(not_(lt(x, s)), lt(x, f)), b, "a bin contains its start and not its end")
        pack(ctx, mod)
        merged(ctx, mod)
    for adt, file in (("DecisionTreeBuilder", "decision_tree"), ("RegressionTreeBuilder", "regression_tree")):
        b = ctx.fn("build", adt)
        if b:
            r = ctx.run(b, opaque=lambda k, f: str(k).split("::")[-1] in ("cut", "name"))
            cuts = [e for e in r.events if e.kind == "call" and str(e.key).split("::")[-1] == "cut"]
            if len(cuts) != 1 or not cuts[0].loops:
                ctx.undecided(file + ".build", b, "the bins are not cut in one place")
                continue
            feats = proj(proj(sym("self"), "sample"), "features")
            m = as_map(F(r.ret, "bins"))
            src = [x for x in subterms(m) if x.op == "seq"]
            k = fresh()
            nm = lambda q: mk("call", "name", at(feats, q))
            col, nb = cuts[0].args[:2]
            q = [x for x in fvs(col)]
            if len(q) != 1:
                ctx.undecided(file + ".build", b, "one column per call")
                continue
            q = q[0]
            ctx.same(file + ".build.column", col, at(feats, q), b, "every column of the sample is binned")
            names = [e.res for e in r.events if e.kind == "call" and str(e.key).split("::")[-1] == "name" and e.args and e.args[0] is at(feats, q)]
            want = [vproj(mk("mapget", proj(sym("self"), "n_bins"), x, NONE), "Some", "0") for x in names] or [None]
            ctx.ob(file + ".build.number", any(equal(nb, w) for w in want if w is not None), b, f"a column is cut into the number of bins configured for its name: {clip(nb, 200)}")
            full = seq(q, dom(ZERO, length(feats)), TRUE, mk("tuple", names[0], cuts[0].res)) if names else None
            if m.op == "call" and str(m.args[0]).startswith("collect") and full is not None:
                ctx.same(file + ".build.map", m.args[1], full, b, "the bins are filed under the name of their column, for all columns")
            else:
                ctx.undecided(file + ".build.map", b, clip(m, 200))
