"""C01: the boosting protocol of Booster::run and Logger::run; C27: what the logger records."""
from registry import rule
from _bspec import *


def havoc(name, base, *rest):
    return mk("havoc", name, ZERO, base, *rest)


def protocol(ctx, key, b, booster, wl, logger=False):
    r = ctx.run(b)
    pre, bo, po = r.calls("preprocess"), r.calls("boost"), r.calls("postprocess")
    ok = ctx.ob(f"{key}.calls", len(pre) == 1 and len(bo) == 1 and len(po) == 1, b,
                f"one preprocess, one boost call site and one postprocess expected, found {len(pre)}/{len(bo)}/{len(po)}")
    if not ok:
        return r, None
    pre, bo, po = pre[0], bo[0], po[0]
    ctx.same(f"{key}.preprocess-args", mk("tuple", *pre.args), mk("tuple", booster, wl), pre_where(b), "preprocess is run on the booster as given")
    ctx.ob(f"{key}.preprocess-once", not pre.loops, b, "preprocess runs inside the round loop")
    ctx.ob(f"{key}.postprocess-once", not po.loops, b, "postprocess runs inside the round loop")
    l = find_loop(r, bo)
    if not ctx.ob(f"{key}.rounds", l is not None and len(bo.loops) == 1, b, "boost is not called from one round loop"):
        return r, None
    ctx.ob(f"{key}.order", pre.seqno < bo.seqno < po.seqno, b, "preprocess, rounds, postprocess are out of order")
    st0 = havoc("Booster::preprocess", booster, wl)
    mus = [k for k, mu in l["mu"].items() if mu is bo.args[0]]
    ctx.ob(f"{key}.state", len(mus) == 1 and equal(l["pre"][mus[0]], st0) and equal(l["post"][mus[0]], mk("havoc", "Booster::boost", ZERO, bo.args[0], *bo.args[1:])), b,
           "the rounds do not start from the preprocessed booster or change it by something other than boost")
    ctx.same(f"{key}.learner", bo.args[1], wl, b, "every round gets the weak learner given by the caller")
    idx = l["idx"]
    ctx.same(f"{key}.iteration", close_counters(l, bo.args[2]), add(ONE, idx), b, "rounds are numbered 1, 2, 3, …")
    cont = guards(bo.res, lambda v: False)
    flow_cont = is_variant(bo.res, "Continue")
    base = bo.pc
    stop = FALSE
    for c, v in l["breaks"]:
        stop = or_(stop, c)
    lc = l["contpc"]
    extra = TRUE
    if logger:
        el = [e for e in r.calls("as_millis")]
        tl = NF(S, "time_limit")
        accs = [k for k in l["mu"] if el and equal(l["post"][k], add(l["mu"][k], el[0].res))]
        if ctx.ob(f"{key}.time-acc", len(accs) == 1 and l["pre"][accs[0]] is ZERO, b, "the accumulated time is the sum of the rounds' elapsed times"):
            extra = not_(lt(tl, l["post"][accs[0]], True))
    ctx.same(f"{key}.stop", lc, mul(flow_cont, extra), b, "the loop goes on exactly while rounds report Continue" + (" and the time limit is not exceeded" if logger else ""))
    hi = l["dom"]
    ctx.same(f"{key}.unbounded", length_of_dom(l), mk("inf"), b, "no bound other than the stop signal limits the rounds")
    out = po.args[0]
    # the state after the last round, or the last round itself as the loop condition leaves it
    last = rewrite(out, lambda t: t.args[1] if t.op == "loopat" else t)
    fin = out.op == "loopout" and bo.args[0] in kids(out) or last is mk("havoc", "Booster::boost", ZERO, bo.args[0], *bo.args[1:])
    ctx.ob(f"{key}.postprocess-args", fin and equal(po.args[1], wl), b, "postprocess runs on the booster as the last round left it")
    return r, (pre, bo, po, l)


def length_of_dom(l):
    d = l["dom"]
    if d is None or l.get("while"):
        return mk("inf")
    return d.args[1] if d.op == "dom" else d


def pre_where(b):
    return b


@rule("C01", "Event-order analysis of the two round drivers (the provided run method and the observed run of the logger): the call sites of "
      "preprocess, boost and postprocess, the loop they sit in, the round number handed over, the state each call receives and the exact loop "
      "continuation condition are compared with the protocol.", ["closures passed to Iterator::try_for_each are driven in order"], floor=18)
def c01(ctx):
    b = ctx.fn("run", module="booster::core")
    if b:
        r, ev = protocol(ctx, "run", b, S, sym("a1"))
        if ev:
            ctx.same("run.result", r.ret, ev[2].res, b, "the result of run is the result of postprocess")
    for b in ctx.prog.find("run", trait="Booster"):
        if "booster::core" not in b["key"] or b.get("self_adt"):
            ctx.ob(f"run.override.{b.get('self_adt')}", False, b, "a booster overrides the provided run method") if b.get("self_adt") else None
    b = ctx.fn("run", "Logger")
    if b:
        r, ev = protocol(ctx, "logger", b, F(S, "booster"), F(S, "weak_learner"), True)
        if ev:
            oks = [payload(v) for g, v in cases(r.ret) if v.op == "variant" and v.args[1] == "Ok"]
            ctx.ob("logger.result", len(oks) == 1 and equal(oks[0], ev[2].res), b, "the result of the observed run is the result of postprocess")


@rule("C27", "Event analysis of the logger's round loop: which objects the objective and the losses are evaluated on, and in which order their values are written "
      "to the record file, is compared with the header; the builder and the limit setters are checked by field-wise value graphs.", [], floor=8)
def c27(ctx):
    b = ctx.fn("run", "Logger")
    if not b:
        return
    r = ctx.run(b)
    w = [e for e in r.calls("write_all", "write_fmt", "write")]
    bo = r.calls("boost")
    hdr = [e for e in w if not e.loops]
    rows = [e for e in w if e.loops]
    ctx.ob("logger.header", len(hdr) == 1 and any(x.op == "str" and x.args[0] == "ObjectiveValue,TrainLoss,TestLoss,Time\n" for a in hdr[0].args for x in contains(a, lambda y: y.op == "str")) if hdr else False, b,
           "the record starts with the header ObjectiveValue,TrainLoss,TestLoss,Time")
    if not ctx.ob("logger.rows", len(rows) == 1 and len(bo) == 1 and len(rows[0].loops) == 1, b, "one record row per round"):
        return
    row = rows[0]
    l0 = find_loop(r, bo[0])
    own = {m: mark_num(mk("sym", f"state{k}")) for k, m in enumerate(l0["mu"].values())} if l0 else {}
    ctx.same("logger.row-always", subst(row.pc, own), subst(bo[0].pc, own), b, "every round writes its row")
    st = mk("havoc", "Booster::boost", ZERO, *bo[0].args)
    hyp = mk("call", "Research::current_hypothesis", st)
    args = [a for a in contains(row.args[1], lambda y: y.op == "arg")] if False else fmtargs(row.args[1])
    el = r.calls("as_millis")
    l = find_loop(r, bo[0])
    acc = [l["post"][k] for k in l["mu"] if el and equal(l["post"][k], add(l["mu"][k], el[0].res))]
    ctx.ob("logger.columns", len(args) == 4, b, f"four columns expected, {len(args)} written")
    if len(args) == 4:
        ctx.same("logger.col.objective", args[0], mk("call", "ObjectiveFunction::eval", F(S, "objective_func"), F(S, "train"), hyp), b, "column 1 = objective of the current hypothesis on the training sample")
        ctx.same("logger.col.train", args[1], mk("call", "apply", F(S, "loss_func"), F(S, "train"), hyp), b, "column 2 = loss on the training sample")
        ctx.same("logger.col.test", args[2], mk("call", "apply", F(S, "loss_func"), F(S, "test"), hyp), b, "column 3 = loss on the test sample")
        ctx.ob("logger.col.time", bool(acc) and equal(args[3], acc[0]), b, "column 4 = accumulated time of the boosting rounds")
    fm = [x for x in contains(row.args[1], lambda y: y.op == "str" and "Byte" in str(y.args[0]))]
    ctx.ob("logger.row-format", len(fm) == 1 and fm[0].args[0] == "ByteStr([192, 1, 44, 192, 1, 44, 192, 1, 44, 192, 1, 10, 0], Cooked)", b, "row = four values separated by commas, then a newline")
    # the end of the run
    if l and len(acc) == 1:
        ctx.same("logger.limit", l["contpc"], mul(is_variant(bo[0].res, "Continue"), not_(lt(NF(S, "time_limit"), acc[0], True))), b,
                 "the run goes on exactly while rounds report Continue and the accumulated time does not exceed the limit")
        ctx.same("logger.unbounded", length_of_dom(l), mk("inf"), b, "nothing else limits the number of rounds")
    # setters
    for nm, f, want in (("time_limit_as_millis", "time_limit", NF(sym("a1"))), ("time_limit_as_secs", "time_limit", mul(num(1000), mark_num(sym("a1")))),
                        ("time_limit_as_mins", "time_limit", mul(num(60000), mark_num(sym("a1")))), ("print_every", "round", mark_num(sym("a1")))):
        for adt in ("Logger", "LoggerBuilder"):
            c = ctx.prog.find(nm, adt)
            if not c and adt == "LoggerBuilder":
                continue
            b2 = ctx.fn(nm, adt)
            if b2:
                r2 = ctx.run(b2)
                ctx.same(f"{adt}.{nm}", F(r2.ret, f), want, b2, f"{nm} sets the limit in its own unit")
    b3 = ctx.fn("new", "Logger")
    if b3:
        r3 = ctx.run(b3)
        for i, f in enumerate(("booster", "weak_learner", "objective_func", "loss_func", "train", "test")):
            ctx.same(f"Logger.new.{f}", F(r3.ret, f), sym(f"a{i}"), b3, f"constructor stores `{f}`")


def fmtargs(t):
    l = [x for x in contains(t, lambda y: y.op == "list" and y.args and all(z.op == "arg" for z in y.args))]
    return [a.args[1] for a in l[0].args] if len(l) == 1 else []
