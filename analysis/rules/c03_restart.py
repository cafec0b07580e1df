"""C03: a run is independent of earlier runs."""
from registry import rule
from _bspec import *

BOOSTERS = ("AdaBoost", "AdaBoostV", "MadaBoost", "SmoothBoost", "LPBoost", "ERLPBoost", "CERLPBoost", "MLPBoost", "SoftBoost",
            "TotalBoost", "GraphSepBoost", "GBM")
HEAVY = ("update", "solve", "project_log_distribution_to_capped_simplex", "update_solution", "next_iterate", "get_blended_next_iterate")


def chains(t, out, seen):
    """maximal field chains rooted at the receiver occurring in t"""
    stack = [t]
    while stack:
        x = stack.pop()
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        p, y = [], x
        while y.op == "field":
            p.append(y.args[1])
            y = y.args[0]
        if y is S and p:
            out.add(tuple(reversed(p)))
            continue
        if x is S:
            out.add(())
            continue
        if x.op == "obj":
            # updated object: unchanged fields of the base are not reads
            for _, v in x.args[1]:
                stack.append(v)
            b = x.args[0]
            if b is not S and b.op != "field":
                stack.append(b)
            continue
        stack.extend(kids(x))


def reads(t):
    out = set()
    chains(t, out, set())
    return out


def roots_of(r):
    """fields an observable effect of the function depends on"""
    terms = [r.ret] + [c for a in r.assumes for c in a[:2]]
    for e in r.events:
        if e.kind != "print":
            terms += list(e.args) + [e.pc]
    for k in r.roots:
        if k != "self":
            terms.append(r.out(k))
    out = set()
    for t in terms:
        if isinstance(t, T):
            out |= reads(t)
    return out


def live(runs):
    """fields whose value can reach a result, a call or a panic of this or of a later round"""
    L = set()
    for r in runs:
        L |= roots_of(r)
    deps = [(p, reads(v)) for r in runs for p, v in written(r.out("self"), S, ())]
    while True:
        n = len(L)
        for p, d in deps:
            if any(conflict(p, x) for x in L):
                L |= d
        if len(L) == n:
            return L


def written(t, base, path):
    if t is base:
        return []
    if t.op == "obj" and t.args[0] is base:
        out = []
        for k, v in t.args[1]:
            out += written(v, proj(base, k), path + (k,))
        return out
    if t.op == "ite":
        # conditional update of single fields
        vals = [v for _, v in cases(t)]
        if all(v is base or (v.op == "obj" and v.args[0] is base) for v in vals):
            out = []
            for v in vals:
                out += written(v, base, path)
            return out
    return [(path, t)]


def conflict(a, b):
    n = min(len(a), len(b))
    return a[:n] == b[:n]


@rule("C03", "Effect analysis of every booster: the fields the rounds and the final step write, the fields rounds, final step and observation read "
      "(over their whole inlined value graphs and path conditions), and the values preprocess leaves in them. Every field that is both written during a run "
      "and read later must be overwritten by preprocess with a value that depends on configuration only.",
      ["weak learners and hypotheses are pure (their traits take &self)"], floor=30)
def c03(ctx):
    L = lens("dist", "betas", "m", "n")
    for adt in BOOSTERS:
        bp = ctx.fn("preprocess", adt)
        bb = ctx.fn("boost", adt)
        bo = ctx.fn("postprocess", adt)
        if not (bp and bb and bo):
            continue
        rp = ctx.run(bp, lens=L)
        runs = [ctx.run(bb, opaque=HEAVY, lens=L), ctx.run(bo, opaque=HEAVY, lens=L)]
        bc = ctx.prog.find("current_hypothesis", adt)
        if bc:
            runs.append(ctx.run(bc[0], opaque=HEAVY, lens=L))
        W = set()
        for r in runs[:2]:
            W |= {p for p, _ in written(r.out("self"), S, ())}
        R = live(runs)
        # cells are written through shared references
        for a in ctx.prog.adt(adt):
            for v in a["variants"]:
                for fl in v["fields"]:
                    if "Cell<" in fl["ty"] and any(conflict((fl["name"],), x) for x in R):
                        W.add((fl["name"],))
        P = dict(written(rp.out("self"), S, ()))
        ctx.ob(f"{adt}.state", bool(W), bb, "a round leaves no trace in the booster")
        for w in sorted(W):
            if not any(conflict(w, x) for x in R):
                continue  # never read again
            nm = ".".join(w) or "self"
            cov = [p for p in P if p == w[:len(p)]]
            if not cov:
                # every read sub-field must be covered separately
                sub_ = [p for p in P if p[:len(w)] == w]
                ok = bool(sub_) and all(any(p == x[:len(p)] for p in sub_) for x in R if x[:len(w)] == w)
                ctx.ob(f"{adt}.{nm}", ok, bp, f"`{nm}` is changed by a run and read by the next one, but preprocess does not set it")
                cov = sub_
            else:
                ctx.ob(f"{adt}.{nm}", True, bp, f"`{nm}` is reset by preprocess")
            for p in cov:
                seen, out = set(), set()
                chains(P[p], out, seen)
                bad = sorted(".".join(x) for x in out if any(conflict(x, y) for y in W))
                ctx.ob(f"{adt}.{nm}.fresh", not bad, bp, f"preprocess sets `{nm}` from {', '.join(bad)}, which earlier runs change")
