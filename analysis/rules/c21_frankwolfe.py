"""C21: Frank-Wolfe steps compute the published step size and stay convex combinations."""
from registry import rule
from _bspec import *
from c07_lpfamily import PROJ

n, m = sym("n", True), sym("m", True)
K, SMP, D, HS, P, W = mark_num(sym("a1")), sym("a2"), sym("a3"), sym("a4"), mark_num(sym("a5")), sym("a6")
ETA, NU = NF(S, "eta"), NF(S, "nu")
LENS = {length(F(SMP, "target")): n, length(D): n, length(HS): m, length(W): m}
ENV = dict(LENS)


def y(i):
    return A(F(SMP, "target"), i)


def cf(h, i):
    return mark_num(mk("call", "Classifier::confidence", h, SMP, i))


def m_new(i):
    return mul(y(i), cf(at(HS, P), i))


def m_w(i):
    return mul(y(i), SUM(m, lambda j: mul(A(W, j), cf(at(HS, j), i))))


def dot(f, g):
    return SUM(n, lambda i: mul(f(i), g(i)))


def proj_at(f):
    v = mk("call", "utils::" + PROJ, NU, SEQ(n, f))
    return lambda i: A(v, i)


def delta(t):
    """Σ_{j<m} [j = p]·f(j) = f(p) for the position p of the new hypothesis (a position in the list,
    which the function asserts)"""
    def f(s):
        if s.op != "sum":
            return s
        j, parts = open_(s)
        dm, body = parts[0], parts[-1]
        if dm.args != (ZERO, m):
            return s
        z = eqb(P, j)
        hit, rest, found = ZERO, ZERO, False
        for mono, c in as_poly(body).items():
            term = from_poly({tuple(q for q in mono if q[0] is not z): c})
            if any(x is z for x, _ in mono):
                hit = add(hit, subst(term, {j: P}))
                found = True
            else:
                rest = add(rest, term)
        return add(hit, sum_(j, dm, rest)) if found else s
    return rewrite(t, f)


def run(ctx, b, v):
    op = opaque_proj
    return ctx.run(b, opaque=op, fields={"fw_type": variant("common::frank_wolfe::FWType", v)}, lens=LENS)


def opaque_proj(key, f):
    return str(key).split("::")[-1] == PROJ


def norm(t):
    """call names of the projection, deltas"""
    return delta(canon(t, ENV))


def interior(step):
    return SEQ(m, lambda j: add(A(W, j), mul(step, sub(eqb(P, j), A(W, j)))))


TOL = num(Fraction(1, 10**9))


def bisect(ctx, key, b, r, slope, ub0, what, used):
    """a loop halving [lb, ub] by the sign of the slope at the middle; returns the substitution
    replacing its final bounds by LB, UB"""
    cand = []
    for l in r.loops:
        if not l["while"] or len(l["mu"]) != 2 or l["uid"] in used:
            continue
        ks = list(l["mu"])
        if any(not isinstance(l["post"][k], T) for k in ks):
            continue
        cand.append(l)
    def probes(l):
        ts = [l["post"][k] for k in l["mu"]] + [c for c, v, d in l["brk"]]
        return {x for t in ts for x in contains(t, lambda x: x.op == "call" and str(x.args[0]).split("::")[-1] == PROJ)}

    def ends(l):
        """(lower, upper) among the loop's two states"""
        ks = list(l["mu"])
        for kl, ku in (ks, ks[::-1]):
            if l["pre"][kl] is ZERO and equal(norm(l["pre"][ku]), norm(ub0)):
                return kl, ku
        a, c = l["mu"][ks[0]], l["mu"][ks[1]]
        at_mid = norm(slope(mul(half(), add(mark_num(a), mark_num(c)))))
        if not set(contains(at_mid, lambda x: x.op == "call")) & {norm(x) for x in probes(l)}:
            return None
        # the slope is looked at in the middle of both states: a bisection with other ends
        for kl, ku in (ks, ks[::-1]):
            if l["pre"][kl] is ZERO or equal(norm(l["pre"][ku]), norm(ub0)):
                return kl, ku
        return ks

    sure = [(l, ends(l)) for l in cand]
    sure = [(l, e) for l, e in sure if e]
    exact = [(l, e) for l, e in sure if l["pre"][e[0]] is ZERO and equal(norm(l["pre"][e[1]]), norm(ub0))]
    if not exact and not sure:
        for l in r.loops:
            if l["while"] and len(l["mu"]) == 1 and l["uid"] not in used and probes(l):
                a = next(iter(l["mu"].values()))
                for c in (ZERO, norm(ub0)):
                    s = norm(slope(mul(half(), add(mark_num(a), c))))
                    if set(contains(s, lambda x: x.op == "call")) & {norm(x) for x in probes(l)}:
                        ctx.ob(key, False, b, what + ": only one end of the interval moves")
                        return None
    for l, e in (exact or (sure if len(sure) == 1 else [])):
        kl, ku = e
        ctx.same(key + ".start", mk("tuple", norm(l["pre"][kl]), norm(l["pre"][ku])), mk("tuple", ZERO, norm(ub0)), b, what + ": the search starts with the whole range of steps")
        used.add(l["uid"])
        lb, ub = mark_num(l["mu"][kl]), mark_num(l["mu"][ku])
        mid = mul(half(), add(lb, ub))
        s = norm(slope(mid))
        up, dn = lt(ZERO, s), lt(s, ZERO)
        ctx.same(key + ".lower", norm(l["post"][kl]), [ite(up, mid, lb), ite(dn, lb, mid)], b, what + ": lower end after one halving")
        ctx.same(key + ".upper", norm(l["post"][ku]), [ite(dn, mid, ub), ite(up, ub, mid)], b, what + ": upper end after one halving")
        tot = FALSE
        for c, v, d in l["brk"]:
            tot = or_(tot, norm(c))
        ctx.same(key + ".stop", tot, or_(not_(lt(TOL, sub(ub, lb))), eqb(s, ZERO)), b, what + ": the search stops when the interval is short or the slope vanishes")
        out = {}
        for x in contains(r.ret, lambda x: x.op == "loopout"):
            if x.args[-1] is l["mu"][kl]:
                out[x] = sym("LB", True)
            elif x.args[-1] is l["mu"][ku]:
                out[x] = sym("UB", True)
        return out
    ctx.undecided(key, b, what + ": no bisection of the expected shape found")
    return None


def onehot():
    z = SEQ(m, lambda j: ZERO)
    return [mk("upd", z, P, ONE), SEQ(m, lambda j: eqb(P, j))]


def single(t):
    return ite(eqb(m, ONE), mk("list", ONE), t)


def dirw(i):
    return sub(m_new(i), m_w(i))


def slope_ls(s):
    q = proj_at(lambda i: mul(num(-1), ETA, add(m_w(i), mul(s, dirw(i)))))
    return dot(q, dirw)


def line(step):
    full = lambda oh: ite(not_(lt(slope_ls(ONE), ZERO)), oh, interior(step))
    return [full(oh) for oh in onehot()]


@rule("C21", "Value-graph analysis of the Frank-Wolfe step for every step rule (the rule is fixed by partial evaluation; helpers inlined, the projection onto the capped simplex kept as a symbol): "
      "the returned weights are compared with the published closed form; line searches are compared with bisection on the sign of the directional derivative (bounds, one halving, stop, result).",
      ["real-number semantics of f64 arithmetic", "the position of the new hypothesis is a position in the list (asserted by the function)"], floor=14)
def c21(ctx):
    capped_simplex(ctx)
    b = ctx.fn("next_iterate", "FrankWolfe")
    if not b:
        return
    # classic
    r = run(ctx, b, "Classic")
    step = div(num(2), add(K, ONE))
    ctx.same("classic", norm(r.ret), interior(step), b, "weights after a classic step (size 2/(k+1))")
    # short step
    r = run(ctx, b, "ShortStep")
    i = fresh()
    mx = bind("maxof", i, dom(ZERO, n), abs_(dirw(i)))
    raw = div(dot(lambda i: A(D, i), dirw), mul(ETA, power(mark_num(mx), 2)))
    step = min_(ONE, max_(ZERO, raw))
    ctx.same("short-step", norm(r.ret), norm(single(interior(step))), b, "weights after a short step (directional derivative over eta times the squared largest change, clipped to [0, 1])")
    # line search
    r = run(ctx, b, "LineSearch")
    used = set()
    out = bisect(ctx, "line-search.bisection", b, r, slope_ls, ONE, "line search", used)
    if out is not None:
        st = mul(half(), add(sym("LB", True), sym("UB", True)))
        got = norm(subst(r.ret, out))
        ctx.same("line-search", got, [norm(single(x)) for x in line(st)], b, "weights after a line search")
    pairwise(ctx, b)


def pairwise(ctx, b):
    r = run(ctx, b, "BlendedPairwise")
    los = sorted({x for x in contains(r.ret, lambda x: x.op == "loopout" and x.args[0].op == "loop")}, key=lambda x: x.id)
    lps = {x.args[0] for x in los}
    key = "pairwise"
    if len(lps) != 1:
        return ctx.undecided(key, b, "the search for the local best and worst member has another shape")
    lp = lps.pop()
    j, (dm, recs) = open_(lp)
    nst = len(recs)
    if nst not in (3, 4):
        return ctx.undecided(key, b, "the search for the local best and worst member has another shape")
    mu = [mark_num(mk("muvar", num(k))) for k in range(nst)]
    act = lt(ZERO, A(W, j))
    e = SUM(n, lambda i: mul(A(D, i), y(i), cf(at(HS, j), i)))
    ctx.same(key + ".members", norm(dm), dom(ZERO, m), b, "all members are searched")
    roles = {}
    for k, rc in enumerate(recs):
        st = norm(rc.args[1])
        if rc.args[0] is num(-2) or equal(st, ite(act, max_(mu[k], e), mu[k])):
            roles["best"] = k
        elif rc.args[0] is num(2) or equal(st, ite(act, min_(mu[k], e), mu[k])):
            roles["worst"] = k
    for k, rc in enumerate(recs):
        st = norm(rc.args[1])
        if any(equal(st, ite(act, ite(c, j, mu[k]), mu[k])) for v in (num(-2), num(2)) for c in (lt(v, e), lt(e, v))):
            return ctx.ob(key + ".positions", False, b, "a member becomes the best or worst one by comparison with the starting value, not with the best or worst edge so far")
    if len(roles) != 2:
        return ctx.undecided(key, b, "the search for the local best and worst member has another shape")
    kb, kw = roles["best"], roles["worst"]
    for k, ok, what in ((kb, lambda v: v < -1, "below the least possible edge -1"), (kw, lambda v: v > 1, "above the largest possible edge 1")):
        st = recs[k].args[0]
        if is_num(st):
            ctx.ob(f"{key}.start.{'best' if k == kb else 'worst'}", ok(numval(st)), b, f"the search starts {what}")
    if nst == 3:
        lost = contains(norm(r.ret), lambda x: x.op == "at" and x.args[0] is W and x.args[1] in (m, length(HS)))
        return ctx.ob(key + ".positions", False, b, "a member's position does not follow its edge: the weight behind the last member is read") if lost else \
            ctx.undecided(key, b, "the search for the local best and worst member has another shape")
    rest = [k for k in range(nst) if k not in (kb, kw)]
    better = lambda k: ite(act, ite(lt(mu[kb], e), j, mu[k]), mu[k])
    worse = lambda k: ite(act, ite(lt(e, mu[kw]), j, mu[k]), mu[k])
    steps = {k: norm(recs[k].args[1]) for k in range(nst)}
    pb = [k for k in rest if equal(steps[k], better(k))]
    pw = [k for k in rest if equal(steps[k], worse(k))]
    ctx.same(key + ".best.edge", steps[kb], ite(act, max_(mu[kb], e), mu[kb]), b, "largest edge among the members with positive weight")
    ctx.same(key + ".worst.edge", steps[kw], ite(act, min_(mu[kw], e), mu[kw]), b, "smallest edge among the members with positive weight")
    left = [x for k in rest for x in unresolved(steps[k]) if x not in mu]
    if left and (len(pb) != 1 or len(pw) != 1):
        return ctx.undecided(key + ".positions", b, "the search for the local best and worst member has another shape")
    if not ctx.ob(key + ".positions", len(pb) == 1 and len(pw) == 1, b, "the positions of the local best and worst member must follow the largest and the smallest edge, found steps "
                  + "; ".join(clip(steps[k], 250) for k in rest)):
        return
    names = {kb: sym("EB", True), kw: sym("EW", True), pb[0]: sym("PB", True), pw[0]: sym("PW", True)}
    PB, PW, EB, EW = sym("PB", True), sym("PW", True), sym("EB", True), sym("EW", True)
    sm = {x: names[int(numval(x.args[1])) if isinstance(x.args[1], T) else x.args[1]] for x in los}
    rr = Sub(r, sm)
    top = A(W, PW)
    dirp = lambda i: mul(y(i), sub(cf(at(HS, PB), i), cf(at(HS, PW), i)))

    def slope(s):
        q = proj_at(lambda i: mul(num(-1), ETA, add(m_w(i), mul(s, dirp(i)))))
        return dot(q, dirp)
    used = set()
    o1 = bisect(ctx, key + ".bisection", b, rr, slope, top, "pairwise line search", used)
    o2 = bisect(ctx, key + ".fallback", b, rr, slope_ls, ONE, "line search towards the new hypothesis", used)
    if o1 is None or o2 is None:
        return
    o1 = {x: sym(v.args[0] + "p", True) for x, v in o1.items()}
    got = norm(subst(subst(rr.ret, o1), o2))
    mid = lambda a, c: mul(half(), add(sym(a, True), sym(c, True)))
    s1, s2 = mid("LBp", "UBp"), mid("LB", "UB")

    def moved(s):
        """s moved from the worst to the best position, in either order of the two assignments"""
        out = []
        u = mk("upd", W, PB, add(A(W, PB), s))
        out.append(mk("upd", u, PW, sub(at(u, PW), s)))
        u = mk("upd", W, PW, sub(A(W, PW), s))
        out.append(mk("upd", u, PB, add(at(u, PB), s)))
        return out
    edge_new = dot(lambda i: A(D, i), m_new)
    edge_cur = dot(lambda i: A(D, i), m_w)
    pw_ = not_(lt(sub(EB, EW), sub(edge_new, edge_cur)))
    full = not_(lt(slope(top), ZERO))
    wants = []
    for a, c in zip(moved(top), moved(s1)):
        for ls in line(s2):
            wants.append(norm(ite(pw_, ite(full, a, c), single(ls))))
    ctx.same(key, got, wants, b, "weights after a pairwise (or line-search) step")


class Sub:
    """a result with some terms replaced by symbols"""

    def __init__(self, r, m):
        self.r = r
        f = lambda t: subst(t, m) if isinstance(t, T) else t
        self.ret = f(r.ret)
        self.loops = []
        for l in r.loops:
            d = dict(l)
            d["pre"] = {k: f(v) for k, v in l["pre"].items()}
            d["post"] = {k: f(v) for k, v in l["post"].items()}
            d["mu"] = {k: f(v) for k, v in l["mu"].items()}
            d["brk"] = [(f(c), v, x) for c, v, x in l["brk"]]
            self.loops.append(d)
