"""C08: the linear and quadratic subproblems handed to the solver are the published ones."""
from registry import rule
from _bspec import *
import interp as IPM

NE, NH = NF(S, "n_examples"), NF(S, "n_hypotheses")
MARG = F(S, "margins")
DIST = F(S, "dist")
SOL = sym("SOLVED")
CLF = sym("a2")
EPS = None

EXPL = ("Value-graph analysis of the subproblem builders behind LPBoost, ERLPBoost, SoftBoost and MLPBoost with all private helpers inlined: the objective (linear and quadratic part), the "
        "constraint matrix in compressed-column form, the right-hand side and the cones passed to the solver, and what is read back from its primal, dual and objective value, are compared "
        "with the published primal programs; construction and iteration (start, step, stopping test) of sequential programs likewise.")


def sol(*p):
    return F(SOL, "solution", *p)


def solver_news(r):
    return [e for e in r.events if e.kind == "call" and str(e.key).endswith("::new") and "Solver" in str(e.key)]


def solved_map(r):
    """terms standing for the solver after solve() → SOLVED"""
    m = {}

    def scan(t):
        if isinstance(t, T):
            for x in contains(t, lambda x: x.op == "havoc" and "solve" in str(x.args[0])):
                m[x] = SOL
    scan(r.ret)
    for k in r.roots:
        scan(r.out(k))
    for l in r.loops:
        for k in l["mu"]:
            scan(l["post"][k])
        for c, v, d in list(l["brk"]) + list(l["rets"]):
            scan(c)
            for x in d.values():
                scan(x)
    for a in r.assumes:
        for x in a:
            scan(x)
    return m


def kvec(*xs):
    return mk("list", *xs)


def cone(name, n):
    return name, n


def cones_are(ctx, key, got, want, b):
    """list of cones, compared by kind and dimension; adjacent cones of the same kind are one"""
    def norm(t):
        if t.op != "list":
            return None
        out = []
        for x in t.args:
            if x.op == "call" and len(x.args) == 2:
                k, n = str(x.args[0]).split("::")[-1], x.args[1]
            elif x.op == "variant":
                k, n = x.args[1], dict(x.args[2])["0"]
            else:
                return None
            if out and out[-1][0] == k:
                out[-1] = (k, add(out[-1][1], n))
            else:
                out.append((k, n))
        return out
    g = norm(got)
    if g is None:
        if unresolved(got):
            return ctx.undecided(key, b, f"cones not recognised: {clip(got, 200)}")
        return ctx.ob(key, False, b, f"cones not recognised: {clip(got, 200)}")
    ok = [k for k, _ in g] == [k for k, _ in want] and all(equal(x, y) for (_, x), (_, y) in zip(g, want))
    ctx.ob(key, ok, b, "cones of the constraints: the code passes %s where the program requires %s" %
           (", ".join(f"{k}({clip(n, 80)})" for k, n in g), ", ".join(f"{k}({clip(n, 80)})" for k, n in want)))


def csc(ctx, key, got, rows, cols, ptr, idx, val, b, what):
    """compressed-column matrix"""
    if not (got.op == "call" and str(got.args[0]).split("::")[-1] == "new" and len(got.args) == 6):
        if is_empty(got):
            got = mk("call", "new", got.args[1].args[0], got.args[1].args[1], None, None, None)
        if unresolved(got) or got.op != "call":
            return ctx.undecided(key, b, f"{what}: matrix construction not recognised")
        return ctx.ob(key, False, b, f"{what}: {clip(got, 200)} where a matrix with given entries is required")
    for n, g, w in zip(("rows", "columns", "column-pointers", "row-indices", "values"), got.args[1:], (rows, cols, ptr, idx, val)):
        ctx.same(f"{key}.{n}", g, w, b, f"{what}: {n}")


def is_empty(t):
    return t.op == "call" and str(t.args[0]).split("::")[-1] == "zeros"


def settings_ok(ctx, key, t, b):
    """the solver must not be told to give up early or to be content with rough answers"""
    bad = []
    for c in contains(t, lambda x: x.op == "call"):
        n = str(c.args[0]).split("::")[-1]
        if n == "max_iter" and is_num(c.args[-1]) and numval(c.args[-1]) < 200:
            bad.append("max_iter")
        if n.startswith(("tol_", "reduced_tol_")) and is_num(c.args[-1]) and numval(c.args[-1]) > Fraction(1, 10**6):
            bad.append(n)
        if n == "time_limit" and is_num(c.args[-1]):
            bad.append(n)
    ctx.ob(key, not bad, b, f"the solver is given settings that make it stop before the optimum: {', '.join(bad)}")


def one_solver(ctx, key, r, b):
    ev = solver_news(r)
    seen = []
    for e in ev:
        if e.args not in seen:
            seen.append(e.args)
    if not ctx.ob(key + ".solver", len(seen) == 1, b, f"exactly one solver per subproblem expected, {len(seen)} found"):
        return None
    return ev[0]


def margins_after():
    """margin vectors after the new hypothesis was added"""
    old = lambda i: SEQ(NH, lambda j: A(at(MARG, i), j))
    return lambda i: snoc(old(i), yh(CLF, i, sym("a1")))


def block(n=NE, m=None, gamma=True):
    """column pointers, row indices and values of the edge-minimisation constraints: the sum of the
    distribution, nonnegativity, capping and one row per hypothesis"""
    m1 = add(NH, ONE)
    n = NE
    old = lambda i: SEQ(NH, lambda j: A(at(MARG, i), j))
    first = add(ONE, mul(num(2), n))
    w = add(num(3), m1)
    f = fresh()
    base = m1 if gamma else ZERO
    g0 = [SEQ(m1, lambda j: add(first, j))] if gamma else []
    v0 = [SEQ(m1, lambda j: num(-1))] if gamma else []
    i, k = fresh(), fresh()
    rows = IPM.flat(i, dom(ZERO, n), concat(mk("list", ZERO, add(ONE, i), add(n, i, ONE)), SEQ(m1, lambda j: add(first, j))))
    vals = IPM.flat(k, dom(ZERO, n), concat(mk("list", ONE, num(-1), ONE), SEQ(NH, lambda j: A(at(MARG, k), j)), mk("list", yh(CLF, k, sym("a1")))))
    ptr = concat(*([mk("list", ZERO)] if gamma else []), SEQ(n, lambda b: add(base, mul(b, w))), mk("list", add(base, mul(n, w))))
    return ptr, concat(*g0, rows), concat(*v0, vals)


def rows_():
    return add(NH, ONE, mul(num(2), NE), ONE)


def edge_matrix(ctx, key, got, gamma, b):
    ptr, idx, val = block(gamma=gamma)
    csc(ctx, key, got, rows_(), add(NE, ONE) if gamma else NE, ptr, idx, val, b, "constraint matrix")


def cones_edge(ctx, key, got, b):
    cones_are(ctx, key, got, [("ZeroConeT", ONE), ("NonnegativeConeT", add(mul(num(2), NE), NH, ONE))], b)


def rhs(last):
    return concat(mk("list", ONE), SEQ(NE, lambda i: ZERO), SEQ(NE, lambda i: NF(S, "cap_inv")), SEQ(add(NH, ONE), lambda j: last))


def state_after(ctx, key, r, b):
    f = margins_after()
    ctx.same(key + ".n_hypotheses", r.field("n_hypotheses"), add(NH, ONE), b, "number of hypotheses after adding one")
    ctx.same(key + ".margins", r.field("margins"), SEQ(NE, f), b, "margin vectors after adding a hypothesis")


def ctor(ctx, adt_mod, want, nonneg=()):
    b = ctx.fn("init", module=adt_mod[0], adt=adt_mod[1], private=True)
    if not b:
        return
    r = ctx.run(b)
    for f, w in want.items():
        ctx.same(f"{b['key']}.{f}", proj(r.ret, f), w, b, f"initial {f} of the subproblem")


def subject(r, t):
    return subst(t, solved_map(r)) if isinstance(t, T) else t


P0 = lambda k: mark_num(sym(f"a{k}"))


def kept_arm(post, mu):
    """the value of the step before, kept under a condition"""
    return post is mu or post.op == "ite" and any(kept_arm(a, mu) for a in post.args[1:])


@rule("C08", EXPL, ["the solver returns an optimal primal/dual pair of the program it is given", "real-number semantics of f64 arithmetic",
                    "margin rows have one entry per hypothesis and the label column one per example (kept by the updates)"], floor=55)
def c08(ctx):
    lpboost(ctx)
    erlp(ctx)
    mlp(ctx)
    soft(ctx)


MF = {"margins": SEQ(NE, lambda i: SEQ(NH, lambda j: A(at(MARG, i), j)))}
ML = {length(F(sym("a1"), "target")): NE, length(DIST): NE, length(CLF): NE}


def upd_fn(ctx, mod, name="update"):
    return ctx.fn(name, module=mod, private=True)


def lpboost(ctx):
    mod = "booster::lpboost::lp_model"
    b = ctx.fn("init", module=mod, private=True)
    if b:
        r = ctx.run(b)
        n, ub = P0(0), P0(1)
        i, k = fresh(), fresh()
        want = {"lin_obj": mk("upd", SEQ(add(n, ONE), lambda _: ub), ZERO, num(-1)),
                "col_ptr": concat(kvec(ZERO), SEQ(n, lambda b: add(n, mul(num(2), b)))),
                "row_val": concat(SEQ(n, lambda b: b), IPM.flat(i, dom(ZERO, n), kvec(i, add(ONE, n, i)))),
                "nonzero": concat(SEQ(n, lambda b: ONE), IPM.flat(k, dom(ZERO, n), kvec(num(-1), num(-1)))),
                "n_examples": n, "n_hypotheses": ZERO}
        for f, w in want.items():
            ctx.same(f"lpboost.init.{f}", proj(r.ret, f), w, b, f"initial {f} of the soft-margin program")
    b = upd_fn(ctx, mod)
    if not b:
        return
    r = ctx.run(b, lens=ML)
    e = one_solver(ctx, "lpboost", r, b)
    if not e:
        return
    P, q, M, h, K, st = e.args
    nv = add(num(2), NH, NE)
    nr = add(num(2), NH, mul(num(2), NE))
    ctx.ob("lpboost.quadratic", is_empty(P), b, f"the quadratic part of a linear program must be zero, found {clip(P, 200)}")
    if is_empty(P):
        ctx.same("lpboost.quadratic.size", P.args[1], mk("tuple", nv, nv), b, "size of the quadratic part")
    ctx.same("lpboost.linear", q, snoc(F(S, "lin_obj"), ZERO), b, "linear part of the objective")
    cp, rv, nz = F(S, "col_ptr"), F(S, "row_val"), F(S, "nonzero")
    cp1 = snoc(cp, length(rv))
    rv1 = concat(rv, SEQ(NE, lambda i: i), kvec(NE, add(ONE, NH, mul(num(2), NE))))
    nz1 = concat(nz, SEQ(NE, lambda i: mul(num(-1), yh(CLF, i, sym("a1")))), kvec(ONE, num(-1)))
    csc(ctx, "lpboost.matrix", M, nr, nv, snoc(cp1, add(length(rv), NE, num(2))), rv1, nz1, b, "constraint matrix")
    ctx.same("lpboost.rhs", h, mk("upd", SEQ(nr, lambda i: ZERO), NE, ONE), b, "right-hand side")
    cones_are(ctx, "lpboost.cones", K, [("NonnegativeConeT", NE), ("ZeroConeT", ONE), ("NonnegativeConeT", add(NE, NH, ONE))], b)
    settings_ok(ctx, "lpboost.settings", st, b)
    sm = solved_map(r)
    g = lambda t: subst(t, sm)
    ctx.same("lpboost.value", g(r.ret), mul(num(-1), NF(SOL, "solution", "obj_val")), b, "edge returned (the negated optimum)")
    ctx.same("lpboost.weights", g(r.field("weights")), tail(sol("x"), add(ONE, NE)), b, "weights of the hypotheses (primal part after margin and slacks)")
    ctx.same("lpboost.dist", g(r.field("dist")), mk("slice", sol("z"), ZERO, NE), b, "distribution over the examples (dual of the margin constraints)",
             {min_(NE, length(sol("z"))): NE})
    for f, w in (("lin_obj", snoc(F(S, "lin_obj"), ZERO)), ("col_ptr", cp1), ("row_val", rv1), ("nonzero", nz1), ("n_hypotheses", add(NH, ONE))):
        ctx.same(f"lpboost.state.{f}", r.field(f), w, b, f"{f} kept for the next round")
    reads(ctx, mod, "lpboost")


def tail(v, k):
    return mk("slice", v, k, length(v))


def reads(ctx, mod, tag):
    for name, f in (("distribution", "dist"), ("weight", "weights")):
        c = ctx.prog.find(name, module=mod)
        if len(c) == 1:
            r = ctx.run(c[0])
            got = r.ret
            if got.op == "iter" and got.args[0] == "seq":
                got = got.args[1]
            ctx.same(f"{tag}.{name}", got, F(S, f), c[0], f"{name} read from the subproblem")


def under(c, t):
    """the value t where the condition c holds"""
    if not isinstance(c, T) or not isinstance(t, T):
        return t
    m = {}
    for mono in as_poly(c):
        for a, _ in mono:
            if a not in m and is_bool(a):
                if subst(c, {a: TRUE}) is FALSE:
                    m[a] = FALSE
                elif subst(c, {a: FALSE}) is FALSE:
                    m[a] = TRUE
    return subst(t, m) if m else t


def solve_loop(ctx, tag, r, b):
    """the loop the solver is created in"""
    e = one_solver(ctx, tag, r, b)
    if not e:
        return None, None
    ctx.ob(tag + ".solve", bool(r.calls("solve")), b, "the solution is read from a solver that was never asked to solve")
    l = find_loop(r, e)
    if l is not None:
        # leaving a function without a value from inside its loop ends the loop
        unit = [x for x in l["rets"] if x[1] is mk("tuple") or x[1] is some(mk("tuple"))]
        l = dict(l, brk=list(l["brk"]) + unit, rets=[x for x in l["rets"] if x not in unit])
        # what holds where the loop is left, or goes on, is known there
        at_exit = lambda xs: [(c, v, {k: under(c, t) for k, t in dd.items()}) for c, v, dd in xs]
        l = dict(l, brk=at_exit(l["brk"]), rets=at_exit(l["rets"]), post={k: under(l["contpc"], t) for k, t in l["post"].items()})
    if l is not None and l["while"] and not l["brk"] and not l["rets"] or l is not None and l["while"] and tag in ("erlpboost", "softboost") and not l["brk"] and all(
            v is not None and getattr(v, "op", "") == "variant" and v.args[1] == "None" for _, v, _ in l["rets"]):
        ctx.ob(tag + ".stops", False, b, "the iteration has no exit once the objective stops improving")
        return e, None
    if l is None or not l["while"] or len(l["brk"]) != 1 or len(l["rets"]) > 1:
        ctx.undecided(tag + ".loop", b, "the loop around the solver has another shape")
        return e, None
    return e, l


def place(l, pred):
    ks = [k for k in l["mu"] if pred(k)]
    return ks[0] if len(ks) == 1 else None


def field_of(name):
    return lambda k: k[0] == ("P", "self") and k[1] == (("f", name),)


def local(k):
    return k[0][0] != "P"


def csc_diag(n, first):
    pass


TOLQ = num(Fraction(1, 10**9))
EPSL = num(Fraction(1, 10**100))


def erlp(ctx):
    mod = "booster::erlpboost::qp_model"
    tag = "erlpboost"
    b = ctx.fn("init", module=mod, private=True)
    if b:
        r = ctx.run(b)
        n = P0(1)
        for f, w in (("n_examples", n), ("n_hypotheses", ZERO), ("margins", SEQ(n, lambda i: mk("list"))), ("dist", SEQ(n, lambda i: power(n, -1))), ("cap_inv", P0(2)), ("eta", P0(0))):
            ctx.same(f"{tag}.init.{f}", proj(r.ret, f), w, b, f"initial {f} of the subproblem")
    b = upd_fn(ctx, mod)
    if not b:
        return
    r = ctx.run(b, fields=MF, lens=ML)
    e, l = solve_loop(ctx, tag, r, b)
    if not e:
        return
    P, q, M, h, K, stt = e.args
    edge_matrix(ctx, tag + ".matrix", M, True, b)
    cones_edge(ctx, tag + ".cones", K, b)
    ctx.same(tag + ".rhs", h, rhs(ZERO), b, "right-hand side")
    settings_ok(ctx, tag + ".settings", stt, b)
    state_after(ctx, tag, r, b)
    if not l:
        return
    sm = solved_map(r)
    g = lambda t: subst(t, sm) if isinstance(t, T) else t
    kd, kw, ko = place(l, field_of("dist")), place(l, field_of("weights")), place(l, local)
    if not carried(ctx, tag, b, l, g, ko) or not ctx_places(ctx, tag, b, kd, kw, ko):
        return
    d, w, o = (l["mu"][k] for k in (kd, kw, ko))
    mark_num(o)
    env = {length(d): NE, length(DIST): NE, length(sol("x")): add(NE, ONE), length(sol("z")): rows_()}
    eta = NF(S, "eta")
    i1 = add(NE, ONE)
    csc(ctx, tag + ".quadratic", canon(P, env), i1, i1, concat(kvec(ZERO), SEQ(i1, lambda i: i)), SEQ(NE, lambda i: add(ONE, i)),
        SEQ(NE, lambda i: power(mul(add(A(d, i), EPSL), eta), -1)), b, "quadratic part of the objective (second-order term of the relative entropy at the last distribution)")
    ctx.same(tag + ".linear", q, concat(kvec(ONE), SEQ(NE, lambda i: div(ln(add(A(d, i), EPSL)), eta))), b, "linear part of the objective (margin, then first-order term of the relative entropy)", env)
    ctx.same(tag + ".start.dist", l["pre"][kd], SEQ(NE, lambda i: power(NE, -1)), b, "the iteration starts at the uniform distribution", env)
    ctx.same(tag + ".start.obj", l["pre"][ko], num(1000), b, "initial objective value")
    ctx.same(tag + ".step.dist", g(l["post"][kd]), SEQ(NE, lambda i: max_(ZERO, A(sol("x"), add(ONE, i)))), b, "next distribution (primal part after the margin, clipped at zero)", env)
    ctx.same(tag + ".step.weights", g(l["post"][kw]), SEQ(add(NH, ONE), lambda i: max_(ZERO, A(sol("z"), add(ONE, mul(num(2), NE), i)))), b,
             "weights (dual values of the hypothesis rows, clipped at zero)", env)
    for k, nm in ((kd, "distribution"), (kw, "weights")):
        ctx.ob(tag + ".step.taken", not kept_arm(l["post"][k], l["mu"][k]), b, f"every improving step replaces the {nm}: under a condition the old {nm} stay")
    obj = NF(SOL, "solution", "obj_val")
    ctx.same(tag + ".step.obj", g(l["post"][ko]), obj, b, "objective value carried to the next step")
    ip = g(l["brk"][0][0])
    st = [x for x in contains(ip, lambda x: x.op == "is" and x.args[1] == "InsufficientProgress")]
    want = or_(lt(sub(o, obj), TOLQ), mk("is", sol("status"), "InsufficientProgress"))
    ctx.same(tag + ".stop", ip, want, b, "stopping test of the iteration")
    dd = l["brk"][0][2]
    ctx.ob(tag + ".stop.value", dd[kd] is d and dd[kw] is w or unresolved(g(dd[kd])) != {d} and bool(unresolved(g(dd[kd]))), b,
           f"on stopping, the distribution and weights of the last improving step must be kept, found {clip(g(dd[kd]), 200)}")
    reads(ctx, mod, tag)


def carried(ctx, tag, b, l, g, ko):
    """the stopping test compares with a value the iteration carries"""
    c = g(l["brk"][0][0])
    if ko is None and not any(local(k) for k in l["mu"]) and contains(c, lambda x: x is NF(SOL, "solution", "obj_val") or x.op == "proj" and x.args[1] == "obj_val"):
        ctx.ob(tag + ".step.obj", False, b, f"the stopping test compares with the objective of the previous step, which is never stored: {clip(c, 160)}")
        return False
    return True


def ctx_places(ctx, tag, b, *ks):
    if any(k is None for k in ks):
        ctx.undecided(tag + ".iteration", b, "the state carried by the iteration is organised differently")
        return False
    return True


def mlp(ctx):
    mod = "booster::mlpboost::perturbed_lp_model"
    tag = "mlpboost"
    b = ctx.fn("init", module=mod, private=True)
    if b:
        r = ctx.run(b)
        n = P0(1)
        for f, w in (("n_examples", n), ("n_hypotheses", ZERO), ("margins", SEQ(n, lambda i: mk("list"))), ("cap_inv", P0(2)), ("eta", P0(0))):
            ctx.same(f"{tag}.init.{f}", proj(r.ret, f), w, b, f"initial {f} of the subproblem")
    b = upd_fn(ctx, mod)
    if not b:
        return
    r = ctx.run(b, fields=MF, lens=ML)
    some = mk("is", sym("a2"), "Some")
    clf = vproj(sym("a2"), "Some", "0")
    new = {CLF: clf}
    e = one_solver(ctx, tag, r, b)
    if not e:
        return
    ctx.same(tag + ".when", e.pc, some, b, "the program is solved again exactly when there is a new hypothesis")
    P, q, M, h, K, stt = e.args
    ptr, idx, val = block()
    csc(ctx, tag + ".matrix", M, rows_(), add(NE, ONE), ptr, idx, subst(val, new), b, "constraint matrix")
    cones_edge(ctx, tag + ".cones", K, b)
    ctx.same(tag + ".rhs", h, rhs(ZERO), b, "right-hand side")
    settings_ok(ctx, tag + ".settings", stt, b)
    if ctx.ob(tag + ".quadratic", is_empty(P), b, f"the quadratic part of a linear program must be zero, found {clip(P, 200)}"):
        ctx.same(tag + ".quadratic.size", P.args[1], mk("tuple", add(NE, ONE), add(NE, ONE)), b, "size of the quadratic part")
    gumbel(ctx, tag + ".linear", q, b)
    sm = solved_map(r)
    g = lambda t: subst(t, sm)
    wnew = tail(sol("z"), add(ONE, mul(num(2), NE)))
    ctx.same(tag + ".returned", g(r.ret), ite(some, wnew, F(S, "weights")), b, "weights returned (dual values of the hypothesis rows)")
    ctx.same(tag + ".weights", g(r.field("weights")), ite(some, wnew, F(S, "weights")), b, "weights kept for rounds without a new hypothesis")
    ctx.same(tag + ".n_hypotheses", r.field("n_hypotheses"), add(NH, some), b, "number of hypotheses")
    f = margins_after()
    old = SEQ(NE, lambda i: SEQ(NH, lambda j: A(at(MARG, i), j)))
    ctx.same(tag + ".margins", r.field("margins"), ite(some, subst(SEQ(NE, f), new), old), b, "margin vectors")


def gumbel(ctx, key, q, b):
    """margin coefficient one, then one Gumbel-distributed perturbation per example"""
    R = sym("R", True)
    draws = contains(q, lambda x: x.op == "call" and str(x.args[0]).split("::")[-1] in ("gen", "random"))
    lp = q.args[0] if q.op == "loopout" else None
    if lp is None or lp.op != "loop" or len({show(x) for x in draws}) != 1:
        return ctx.undecided(key, b, f"linear part not recognised: {clip(q, 200)}")
    i, (dm, recs) = open_(lp)
    k = q.args[1]
    rec = recs[k if isinstance(k, int) else int(numval(k))]
    start, step = rec.args
    ctx.same(key + ".count", dm, dom(ZERO, NE), b, "one perturbation per example")
    if step.op == "upd" and step.args[0].op == "muvar" and equal(length(start), add(NE, ONE)) and equal(step.args[1], add(i, ONE)):
        # a vector of known size, filled in place behind the margin
        start = kvec(at(start, ZERO))
        step = concat(step.args[0], kvec(step.args[2]))
    ctx.same(key + ".margin", start, kvec(ONE), b, "objective coefficient of the margin")
    ds = contains(step, lambda x: x.op == "call" and str(x.args[0]).split("::")[-1] in ("gen", "random"))
    got = step.args[-1].args[0] if step.op == "concat" and step.args[-1].op == "list" and len(step.args[-1].args) == 1 else None
    if got is None:
        return ctx.undecided(key, b, f"linear part not recognised: {clip(step, 200)}")
    got = subst(got, {x: R for x in ds})
    ctx.same(key + ".perturbation", got, div(ln(ln(div(ONE, R))), NF(S, "eta")), b, "perturbation of an example, ln(ln(1/r))/eta for a uniform r")


def soft(ctx):
    mod = "booster::softboost::qp_model"
    tag = "softboost"
    b = ctx.fn("init", module=mod, private=True)
    if b:
        r = ctx.run(b)
        n = P0(0)
        for f, w in (("n_examples", n), ("n_hypotheses", ZERO), ("margins", SEQ(n, lambda i: mk("list"))), ("cap_inv", P0(1))):
            ctx.same(f"{tag}.init.{f}", proj(r.ret, f), w, b, f"initial {f} of the subproblem")
    b = upd_fn(ctx, mod)
    if b:
        soft_update(ctx, tag, b)
    ws = [x for x in ctx.prog.bodies if x["key"].startswith(mod + "::") and "weight" in x["key"].split("::")[-1]] if hasattr(ctx.prog, "bodies") and isinstance(ctx.prog.bodies, list) else []
    b = ctx.fn("weights", module=mod, private=True)
    if b:
        soft_weights(ctx, tag + ".final", b)


def soft_update(ctx, tag, b):
    h4 = sym("a4")
    D2 = sym("a2")
    r = ctx.run(b, fields=MF, lens={length(F(sym("a1"), "target")): NE, length(D2): NE, length(h4): NE})
    e, l = solve_loop(ctx, tag, r, b)
    if not e:
        return
    P, q, M, h, K, stt = e.args
    ptr, idx, val = block(gamma=False)
    new = {CLF: h4}
    csc(ctx, tag + ".matrix", M, rows_(), NE, ptr, idx, subst(val, new), b, "constraint matrix")
    cones_edge(ctx, tag + ".cones", K, b)
    ctx.same(tag + ".rhs", h, rhs(mark_num(sym("a3"))), b, "right-hand side (hypothesis rows bounded by the upper estimate)")
    settings_ok(ctx, tag + ".settings", stt, b)
    f = margins_after()
    ctx.same(tag + ".n_hypotheses", r.field("n_hypotheses"), add(NH, ONE), b, "number of hypotheses after adding one")
    ctx.same(tag + ".margins", r.field("margins"), subst(SEQ(NE, f), new), b, "margin vectors after adding a hypothesis")
    if not l:
        return
    sm = solved_map(r)
    g = lambda t: subst(t, sm) if isinstance(t, T) else t
    kd, ko = place(l, lambda k: k == (("P", "a2"), ())), place(l, local)
    if not carried(ctx, tag, b, l, g, ko) or not ctx_places(ctx, tag, b, kd, ko):
        return
    d, o = l["mu"][kd], l["mu"][ko]
    mark_num(o)
    env = {length(d): NE, length(D2): NE, length(sol("x")): NE, length(sol("z")): rows_()}
    csc(ctx, tag + ".quadratic", canon(P, env), NE, NE, concat(SEQ(NE, lambda i: i), kvec(NE)), SEQ(NE, lambda i: i), SEQ(NE, lambda i: power(A(d, i), -1)), b,
        "quadratic part of the objective (second-order term of the relative entropy at the last distribution)")
    ctx.same(tag + ".linear", q, SEQ(NE, lambda i: ln(A(d, i))), b, "linear part of the objective (first-order term of the relative entropy)", env)
    ctx.same(tag + ".start.dist", l["pre"][kd], D2, b, "the iteration starts at the distribution it is given")
    ctx.same(tag + ".start.obj", l["pre"][ko], num(10**9), b, "initial objective value")
    obj = NF(SOL, "solution", "obj_val")
    x = sol("x")
    i = fresh()
    allpos = not_(bind("any", i, dom(ZERO, NE), not_(lt(ZERO, A(x, i)))))
    if not l["rets"]:
        return ctx.undecided(tag + ".fail", b, "no early return from the iteration")
    c, v, dd = l["rets"][0]
    ctx.same(tag + ".fail", canon(g(c), env), not_(allpos), b, "the step fails when the solution leaves the interior")
    ctx.ob(tag + ".fail.value", v is not None and v.op == "variant" and v.args[1] == "None", b, f"a failed step must be reported as such, found {clip(v, 100)}")
    ctx.ob(tag + ".fail.dist", dd[kd] is d or bool(unresolved(g(dd[kd])) - {d}), b, f"a failed step must leave the distribution alone, found {clip(g(dd[kd]), 200)}")
    newd = [SEQ(NE, lambda i: A(x, i)), x]
    same_vec(ctx, tag + ".step.dist", g(l["post"][kd]), newd, d, b, "next distribution (the solution of the program)", env)
    ctx.same(tag + ".step.obj", g(l["post"][ko]), obj, b, "objective value carried to the next step")
    ctx.same(tag + ".stop", canon(g(l["brk"][0][0]), env), and_(allpos, lt(sub(o, obj), TOLQ)), b, "stopping test of the iteration")
    same_vec(ctx, tag + ".stop.dist", g(l["brk"][0][2][kd]), newd, d, b, "distribution on stopping (the last solution)", env)


def same_vec(ctx, key, got, want, old, b, what, env):
    """vector, possibly written in place element by element over `old`"""
    got = canon(got, env)
    if got.op == "mapover":
        if got.args[1] is old and len(got.args) == 2:
            got = got.args[0]
    ctx.same(key, got, want, b, what, env)


def soft_weights(ctx, tag, b):
    r = ctx.run(b, fields=MF)
    e = one_solver(ctx, tag, r, b)
    if not e:
        return
    P, q, M, h, K, stt = e.args
    if ctx.ob(tag + ".quadratic", is_empty(P), b, f"the quadratic part of a linear program must be zero, found {clip(P, 200)}"):
        ctx.same(tag + ".quadratic.size", P.args[1], mk("tuple", add(NE, ONE), add(NE, ONE)), b, "size of the quadratic part")
    ctx.same(tag + ".linear", q, mk("upd", SEQ(add(NE, ONE), lambda i: ZERO), ZERO, ONE), b, "linear part of the objective")
    n, m = NE, NH
    first = add(ONE, mul(num(2), n))
    i, k = fresh(), fresh()
    w = add(num(3), m)
    idx = concat(SEQ(m, lambda j: add(first, j)), IPM.flat(i, dom(ZERO, n), concat(mk("list", ZERO, add(ONE, i), add(n, i, ONE)), SEQ(m, lambda j: add(first, j)))))
    val = concat(SEQ(m, lambda j: num(-1)), IPM.flat(k, dom(ZERO, n), concat(mk("list", ONE, num(-1), ONE), SEQ(m, lambda j: A(at(MARG, k), j)))))
    ptr = concat(kvec(ZERO), SEQ(n, lambda x: add(m, mul(x, w))), kvec(add(m, mul(n, w))))
    nr = add(m, mul(num(2), n), ONE)
    csc(ctx, tag + ".matrix", M, nr, add(n, ONE), ptr, idx, val, b, "constraint matrix")
    cones_are(ctx, tag + ".cones", K, [("ZeroConeT", ONE), ("NonnegativeConeT", add(mul(num(2), n), m))], b)
    ctx.same(tag + ".rhs", h, concat(kvec(ONE), SEQ(n, lambda i: ZERO), SEQ(n, lambda i: NF(S, "cap_inv")), SEQ(m, lambda j: ZERO)), b, "right-hand side")
    settings_ok(ctx, tag + ".settings", stt, b)
    sm = solved_map(r)
    got = subst(r.ret, sm)
    z = sol("z")
    env = {length(z): nr}
    if got.op == "iter" and got.args[0] == "seq":
        got = got.args[1]
    ctx.same(tag + ".weights", got, [tail(z, first), SEQ(m, lambda j: A(z, add(first, j)))], b, "weights (dual values of the hypothesis rows)", env)
