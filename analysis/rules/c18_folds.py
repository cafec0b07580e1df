"""C18: cross validation hands out complementary parts of the sample, fold by fold."""
from fractions import Fraction
from registry import rule
from _bspec import *
from rulelib import unresolved

SM = F(S, "sample")


def N(s=SM):
    return NF(s, "n_sample")


def fold(k, n, t):
    """(first, end) position of the k-th test part"""
    w = sub(n, t)
    return mul(k, w), min_(mul(add(k, ONE), w), n)


@rule("C18", "Value-graph analysis of the fold iterator: initial order and defaults, the shuffle, the bounds of every fold and the condition under which the iterator ends are compared with their definition; "
      "the split itself is judged by C16.",
      ["`shuffle` of the random library permutes in place", "counts are nonnegative integers, the training part is at most the sample"], floor=12)
def c18(ctx):
    b = ctx.fn("new", "CrossValidation")
    n0 = N(sym("a0"))
    if b:
        r = ctx.run(b)
        for f, want, what in (("sample", sym("a0"), "folds are made of the given sample"), ("current_fold", ZERO, "the first fold comes first"),
                              ("n_folds", num(5), "five folds by default"), ("seed", num(1234), "documented default seed"), ("verbose", FALSE, "prints nothing by default"),
                              ("train_size", mk("trunc", mul(num(Fraction(4, 5)), n0)), "four fifths of the sample are for training by default"),
                              ("ix", SEQ(n0, lambda i: i), "every row once, in the order of the sample")):
            ctx.same("new." + f, proj(r.ret, f), want, b, what)
    for nm, f, want, what in (("train_ratio", "train_size", mk("trunc", mul(NF(sym("a1")), N())), "the whole part of ratio times the rows is for training"),
                              ("n_folds", "n_folds", NF(sym("a1")), "the number of folds asked for"), ("seed", "seed", NF(sym("a1")), "the seed given")):
        b = ctx.fn(nm, "CrossValidation")
        if b:
            r = ctx.run(b)
            ctx.same(f"{nm}.value", proj(r.ret, f), want, b, what)
            for o in ("sample", "current_fold", "n_folds", "seed", "train_size", "ix"):
                if o != f:
                    ctx.same(f"{nm}.keeps.{o}", proj(r.ret, o), F(S, o), b, f"{nm} changes nothing else")
    b = ctx.fn("shuffle", "CrossValidation")
    if b:
        r = ctx.run(b)
        
        ix = proj(r.ret, "ix")
        if ix.op == "call" and ix.args[0] == "shuffled":
            ctx.same("shuffle.order", ix.args[1], F(S, "ix"), b, "the rows are those before")
            g = ix.args[2]
            ctx.ob("shuffle.seed", mentions(g, F(S, "seed")) and not any(x.op == "call" and str(x.args[0]).split("::")[-1] in ("thread_rng", "rng", "from_entropy", "from_os_rng") for x in subterms(g)), b,
                   f"the order is drawn from the seed: {clip(g, 200)}")
        elif unresolved(ix):
            ctx.undecided("shuffle.order", b, f"order {clip(ix, 200)}")
        else:
            ctx.ob("shuffle.order", False, b, f"the rows are put in random order: the order becomes {clip(ix, 200)}")
        for f in ("sample", "current_fold", "n_folds", "seed", "verbose", "train_size"):
            ctx.same("shuffle.keeps." + f, proj(r.ret, f), F(S, f), b, "shuffling changes nothing else")
    b = ctx.fn("next", "CrossValidation")
    if not b:
        return
    r = ctx.run(b, opaque=["split"])
    k, n, t, m = NF(S, "current_fold"), N(), NF(S, "train_size"), NF(S, "n_folds")
    start, end = fold(k, n, t)
    more = and_(lt(k, m, True), lt(start, n, True))
    sp = r.calls("split")
    ctx.same("next.ends", subst(is_variant(r.ret, "Some"), {length(F(S, "ix")): n}), more, b, "a further part comes exactly while folds are wanted and rows are left")
    if len({e.res for e in sp}) != 1:
        return ctx.undecided("next.split", b, f"{len(sp)} splits of the sample")
    e = sp[0]
    ctx.same("next.sample", e.args[0], SM, b, "the sample is split")
    ctx.same("next.order", e.args[1], F(S, "ix"), b, "in the order of the folds")
    # the order has one entry per row (new, shuffle; kept by next)
    L = length(F(S, "ix"))
    env = {L: n, mark_num(min_(mul(add(k, ONE), sub(n, t)), L)): end}
    ctx.same("next.start", e.args[2], start, b, "a fold starts where the one before ended")
    ctx.same("next.end", e.args[3], end, b, "a fold has as many rows as are not for training, as far as there are any", env)
    got = subst(r.ret, {more: TRUE})
    got = vproj(r.ret, "Some", "0") if got is r.ret else vproj(got, "Some", "0")
    ctx.same("next.parts", got, [e.res, mk("tuple", proj(e.res, "0"), proj(e.res, "1"))], b, "training part first, test part second")
    after = r.out()
    ctx.same("next.advance", ite(more, proj(after, "current_fold"), ZERO), ite(more, add(k, ONE), ZERO), b, "the next fold follows")
    for f in ("sample", "ix", "n_folds", "train_size", "seed"):
        ctx.same("next.keeps." + f, proj(after, f), F(S, f), b, "taking a fold changes nothing else")
    prints = [x for x in r.events if x.kind == "print"]
    vb = mk("bool", F(S, "verbose"))
    quiet = [x for x in prints if subst(x.pc, {vb: FALSE}) is not FALSE]
    ctx.ob("next.quiet", not quiet, b, "nothing is printed unless asked for")
    ctx.ob("next.verbose", any(subst(x.pc, {vb: TRUE, more: TRUE}) is not FALSE for x in prints), b, "a fold is reported when asked for")
    shown = set().union(*[set(subterms(a)) for x in prints for a in x.args]) if prints else set()
    for i, w in (("0", "training"), ("1", "test")):
        ctx.ob(f"next.verbose.{i}", not prints or N(proj(e.res, i)) in shown, b, f"the size of the {w} part is reported")
