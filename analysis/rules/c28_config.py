"""C28: configuration methods take effect and touch nothing else."""
from registry import rule
from _bspec import *
from c16_sample import norm_str

A1 = sym("a1")
X = mark_num(sym("a1"))

# (type, method) -> {path: value}; every other field keeps its value.  A path ending in "?" may be
# recomputed (a cached parameter that preprocess derives again, C03).
SETTERS = {
    ("AdaBoost", "tolerance"): {"tolerance": X},
    ("AdaBoost", "force_quit_at"): {"force_quit_at": some(A1)},
    ("AdaBoostV", "tolerance"): {"tolerance": X},
    ("AdaBoostV", "force_quit_at"): {"force_quit_at": some(A1)},
    ("MadaBoost", "tolerance"): {"tolerance": X},
    ("MadaBoost", "force_quit_at"): {"force_quit_at": some(A1)},
    ("SmoothBoost", "tolerance"): {"kappa": X},
    ("SmoothBoost", "gamma"): {"gamma": X},
    ("LPBoost", "nu"): {"nu": X},
    ("LPBoost", "tolerance"): {"tolerance": X},
    ("ERLPBoost", "nu"): {"nu": X, "eta?": None},
    ("ERLPBoost", "tolerance"): {"half_tolerance": mul(half(), X), "eta?": None},
    ("CERLPBoost", "nu"): {"nu": X, "frank_wolfe.nu": X, "eta?": None, "frank_wolfe.eta?": None},
    ("CERLPBoost", "tolerance"): {"half_tolerance": mul(half(), X), "eta?": None, "frank_wolfe.eta?": None},
    ("CERLPBoost", "fw_type"): {"frank_wolfe.fw_type": A1},
    ("CERLPBoost", "variant"): {"frank_wolfe.fw_type": A1},
    ("MLPBoost", "nu"): {"nu": X, "primary.nu": X, "eta?": None, "primary.eta?": None},
    ("MLPBoost", "frank_wolfe"): {"primary.fw_type": A1},
    ("MLPBoost", "tolerance"): {"half_tolerance": mul(half(), X), "eta?": None, "primary.eta?": None},
    ("SoftBoost", "nu"): {"nu": X},
    ("SoftBoost", "tolerance"): {"tolerance": X},
    ("TotalBoost", "tolerance"): {"softboost.tolerance": X},
    ("GBM", "tolerance"): {"tolerance": X},
    ("GBM", "loss"): {"loss": A1},
    ("DecisionTreeBuilder", "max_depth"): {"max_depth.0": X},
    ("DecisionTreeBuilder", "criterion"): {"criterion": A1},
    ("DecisionTreeBuilder", "set_nbins"): {"n_bins": mk("mapset", F(S, "n_bins"), A1, sym("a2"))},
    ("RegressionTreeBuilder", "set_nbins"): {"n_bins": mk("mapset", F(S, "n_bins"), A1, sym("a2"))},
    ("RegressionTreeBuilder", "loss"): {"loss": some(A1)},
    ("RegressionTreeBuilder", "lambda_l2"): {"lambda_l2": X},
    ("RegressionTreeBuilder", "max_depth"): {"max_depth": X},
    ("NeuralNetwork", "n_epoch"): {"n_epoch": X},
    ("NeuralNetwork", "n_iter"): {"n_iter_per_epoch": X},
    ("NeuralNetwork", "minibatch_size"): {"minibatch_size": X},
    ("NeuralNetwork", "task"): {"task": X},
    ("NeuralNetwork", "append"): {"dimensions": concat(F(S, "dimensions"), mk("list", X)), "activations": concat(F(S, "activations"), mk("list", sym("a2")))},
    ("BadBaseLearnerBuilder", "tolerance"): {"tolerance": X},
    ("BadBaseLearnerBuilder", "nu"): {"nu": X},
    ("SampleReader", "has_header"): {"has_header": mk("bool", A1)},
    ("SampleReader", "file"): {"file": some(A1)},
    ("SampleReader", "target_feature"): {"target": some(A1)},
    ("LoggerBuilder", "booster"): {"booster": some(A1)},
    ("LoggerBuilder", "weak_learner"): {"weak_learner": some(A1)},
    ("LoggerBuilder", "objective_function"): {"objective_func": some(A1)},
    ("LoggerBuilder", "loss_function"): {"loss_func": some(A1)},
    ("LoggerBuilder", "train_sample"): {"train": some(A1)},
    ("LoggerBuilder", "test_sample"): {"test": some(A1)},
    ("LoggerBuilder", "time_limit_as_millis"): {"time_limit": X},
    ("LoggerBuilder", "time_limit_as_secs"): {"time_limit": mul(num(1000), X)},
    ("LoggerBuilder", "time_limit_as_mins"): {"time_limit": mul(num(60000), X)},
    ("LoggerBuilder", "print_every"): {"round": X},
    ("Logger", "time_limit_as_millis"): {"time_limit": X},
    ("Logger", "time_limit_as_secs"): {"time_limit": mul(num(1000), X)},
    ("Logger", "time_limit_as_mins"): {"time_limit": mul(num(60000), X)},
    ("Logger", "print_every"): {"round": X},
    ("CrossValidation", "n_folds"): {"n_folds": X},
    ("CrossValidation", "seed"): {"seed": X},
    ("CrossValidation", "verbose"): {"verbose": mk("bool", A1)},
    ("CrossValidation", "train_ratio"): {"train_size": mk("trunc", mul(X, NF(S, "sample", "n_sample")))},
}


def leaves(t, base, path=()):
    """(path, value) of every field of `t` that differs from the field of `base`"""
    if t is base:
        return []
    if t.op == "obj" and t.args[0] is base:
        out = []
        for k, v in t.args[1]:
            out += leaves(v, proj(base, k), path + (k,))
        return out
    if t.op == "struct" and base.op != "struct":
        out = []
        for k, v in t.args[1]:
            out += leaves(v, proj(base, k), path + (k,))
        return out
    return [(".".join(path), t)]


@rule("C28", "Field-effect analysis of every public configuration method: the object it returns is compared field by field with the receiver, so that "
      "exactly the named parameter is set, to the given value in its own unit; constructors and build() are compared field by field too.",
      ["values are within the validated ranges (C06)"], floor=90)
def c28(ctx):
    for (adt, nm), want in SETTERS.items():
        b = ctx.fn(nm, adt)
        if not b:
            continue
        r = ctx.run(b)
        res = r.ret
        if b["params"][0]["ty"].startswith("&mut"):
            res = r.out("self")
        got = dict(leaves(res, S))
        soft = {k[:-1] for k in want if k.endswith("?")}
        hard = {k: v for k, v in want.items() if not k.endswith("?")}
        for k, v in hard.items():
            g = res
            for p in k.split("."):
                g = proj(g, p)
            ctx.same(f"{adt}.{nm}.{k}", g, v, b, f"`{nm}` sets {k}")
        extra = sorted(k for k in got if k not in hard and k not in soft and not any(h.startswith(k + ".") for h in hard))
        ctx.ob(f"{adt}.{nm}.only", not extra, b, f"`{nm}` also changes {', '.join(extra)}")
    # ---- build / constructors
    b = ctx.fn("build", "LoggerBuilder")
    if b:
        r = ctx.run(b)
        for f in ("booster", "weak_learner", "objective_func", "loss_func", "train", "test"):
            ctx.same(f"LoggerBuilder.build.{f}", F(r.ret, f), vproj(F(S, f), "Some", "0"), b, f"build hands {f} over")
        for f in ("time_limit", "round"):
            ctx.same(f"LoggerBuilder.build.{f}", F(r.ret, f), F(S, f), b, f"build hands {f} over")
    b = ctx.fn("new", "Logger")
    if b:
        r = ctx.run(b)
        for i, f in enumerate(("booster", "weak_learner", "objective_func", "loss_func", "train", "test")):
            ctx.same(f"Logger.new.{f}", F(r.ret, f), sym(f"a{i}"), b, f"constructor stores `{f}`")
    mx = mk("const", "usize::MAX")
    for nm, adt in ((a, a) for a in ("AdaBoost", "AdaBoostV", "MadaBoost", "SmoothBoost", "LPBoost", "ERLPBoost", "CERLPBoost", "MLPBoost", "SoftBoost", "GraphSepBoost")):
        b = ctx.fn("init", adt)
        if b:
            r = ctx.run(b)
            ctx.same(f"{adt}.init.sample", F(r.ret, "sample"), sym("a0"), b, "the constructor keeps the training sample")
    for adt in ("LPBoost", "ERLPBoost", "CERLPBoost", "MLPBoost", "SoftBoost"):
        b = ctx.fn("init", adt)
        if b:
            ctx.same(f"{adt}.init.nu", F(ctx.run(b).ret, "nu"), ONE, b, "hard margin by default (nu = 1)")
    ns = NF(sym("a0"), "n_sample")
    for adt, fn, f, want in (("AdaBoost", "init", "tolerance", div(ONE, add(ns, ONE))), ("MadaBoost", "init", "tolerance", div(ONE, add(ns, ONE))),
                             ("AdaBoostV", "init", "tolerance", div(ONE, ns)), ("LPBoost", "init", "tolerance", div(ONE, ns)), ("SoftBoost", "init", "tolerance", div(ONE, ns)),
                             ("ERLPBoost", "init", "half_tolerance", num("0.005")), ("CERLPBoost", "init", "half_tolerance", num("0.005")), ("MLPBoost", "init", "half_tolerance", num("0.005")),
                             ("GBM", "init_with_loss", "max_iter", num(100)), ("RegressionTreeBuilder", "new", "lambda_l2", num("0.01")),
                             ("BadBaseLearnerBuilder", "new", "tolerance", num("0.000000001")), ("BadBaseLearnerBuilder", "new", "nu", ONE),
                             ("NeuralNetwork", "init", "learning_rate", num("0.001")), ("NeuralNetwork", "init", "n_epoch", num(100)), ("NeuralNetwork", "init", "n_iter_per_epoch", num(200)),
                             ("LoggerBuilder", "new", "round", num(100)), ("Logger", "new", "round", num(100))):
        b = ctx.fn(fn, adt)
        if b:
            got = F(ctx.run(b).ret, f)
            if got.op == "proj":
                ctx.undecided(f"{adt}.{fn}.{f}", b, f"no field {f}")
            else:
                ctx.same(f"{adt}.{fn}.{f}", got, want, b, f"default of `{f}`")
    for adt in ("CERLPBoost", "MLPBoost"):
        b = ctx.fn("init", adt)
        if b:
            v = [x for x in contains(ctx.run(b).ret, lambda x: x.op in ("variant", "variant0") and any(str(a) in ("Classic", "ShortStep", "LineSearch", "BlendedPairwise") for a in x.args))]
            ctx.ob(f"{adt}.init.rule", len(v) == 1 and "ShortStep" in [str(a) for a in v[0].args], b, "documented default step rule: short steps") if v else ctx.undecided(f"{adt}.init.rule", b, "no rule found")
    b = ctx.fn("init", "TotalBoost")
    if b:
        r = ctx.run(b)
        ctx.same("TotalBoost.init.nu", F(r.ret, "softboost", "nu"), ONE, b, "TotalBoost is the hard-margin case")
        ctx.same("TotalBoost.init.sample", F(r.ret, "softboost", "sample"), sym("a0"), b, "the constructor keeps the training sample")
    for adt in ("DecisionTreeBuilder", "RegressionTreeBuilder"):
        b = ctx.fn("new", adt)
        if not b:
            continue
        r = ctx.run(b, opaque=lambda k, f: str(k).split("::")[-1] in ("distinct_value_count", "name"))
        ctx.same(f"{adt}.new.sample", F(r.ret, "sample"), sym("a0"), b, "the builder keeps the sample")
        d = F(r.ret, "max_depth")
        ctx.same(f"{adt}.new.depth", proj(d, "0") if d.op == "struct" else d, num(2), b, "documented default depth 2")
        m = norm_str(F(r.ret, "n_bins"))
        ev = {str(e.key).split("::")[-1]: e for e in r.events if e.kind == "call"}
        if m.op == "call" and str(m.args[0]).startswith("collect") and m.args[1].op == "seq" and "name" in ev and "distinct_value_count" in ev:
            i, (dd, g, e) = open_(m.args[1])
            feats = proj(sym("a0"), "features")
            nm, cn = (mk("call", ev[x].res.args[0], at(feats, i)) for x in ("name", "distinct_value_count"))
            ctx.same(f"{adt}.new.bins", mk("tuple", dd, g, e), mk("tuple", dom(ZERO, length(feats)), TRUE, mk("tuple", nm, min_(num(255), mark_num(cn)))), b,
                     "by default a column gets one bin per distinct value, at most 255")
        else:
            ctx.undecided(f"{adt}.new.bins", b, clip(m, 200))
    b = ctx.fn("new", "DecisionTreeBuilder")
    if b:
        ctx.same("DecisionTreeBuilder.new.criterion", mk("is", F(ctx.run(b).ret, "criterion"), "Entropy") if F(ctx.run(b).ret, "criterion").op != "variant" else (TRUE if F(ctx.run(b).ret, "criterion").args[1] == "Entropy" else FALSE), TRUE, b, "documented default criterion: entropy")
    for adt, keep in (("RegressionTreeBuilder", ("lambda_l2", "max_depth")), ("DecisionTreeBuilder", ("criterion", "max_depth"))):
        b = ctx.fn("build", adt)
        if not b:
            continue
        r = ctx.run(b, opaque=("cut",))
        for f in keep:
            ctx.same(f"{adt}.build.{f}", mark_num(F(r.ret, f)) if f != "criterion" else F(r.ret, f), NF(S, f) if f != "criterion" else F(S, f), b, f"build hands `{f}` over")
        if "Regression" in adt:
            ctx.same(f"{adt}.build.loss", F(r.ret, "loss_func"), vproj(F(S, "loss"), "Some", "0"), b, "build hands the loss over")
            n = F(r.ret, "n_sample")
            if n.op != "proj":
                ctx.same(f"{adt}.build.n_sample", mark_num(n), NF(S, "sample", "n_sample"), b, "the tree is grown over all examples of the sample")
    defaults2(ctx)
    reported(ctx)
    texts(ctx)


def defaults2(ctx):
    none = lambda v: isinstance(v, T) and v.op in ("variant", "variant0") and v.args[1] == "None"
    for adt, fn, fs in (("AdaBoost", "init", ("force_quit_at",)), ("AdaBoostV", "init", ("force_quit_at",)), ("MadaBoost", "init", ("force_quit_at",)),
                        ("LoggerBuilder", "new", ("booster", "weak_learner", "objective_func", "loss_func", "train", "test")), ("RegressionTreeBuilder", "new", ("loss",))):
        b = ctx.fn(fn, adt)
        if not b:
            continue
        r = ctx.run(b, opaque=lambda k, f: str(k).split("::")[-1] in ("distinct_value_count", "name"))
        for f in fs:
            v = F(r.ret, f)
            if unresolved(v) or v.op in ("proj", "field"):
                ctx.undecided(f"{adt}.{fn}.{f}", b, f"no field {f}")
            else:
                ctx.ob(f"{adt}.{fn}.{f}", none(v), b, f"`{f}` is unset until it is configured, found {clip(v, 80)}")
    for adt, fld in (("CERLPBoost", "frank_wolfe"), ("MLPBoost", "primary")):
        b = ctx.fn("init", adt)
        if b:
            fw = F(ctx.run(b).ret, fld)
            if F(fw, "nu").op != "proj":
                ctx.same(f"{adt}.init.{fld}.nu", mark_num(F(fw, "nu")), ONE, b, "the step rule starts with the same capping parameter as the booster (1)")
    for adt, fn, f, want in (("CrossValidation", "new", "n_folds", num(5)), ("CrossValidation", "new", "seed", num(1234)), ("CrossValidation", "new", "verbose", FALSE),
                             ("CrossValidation", "new", "train_size", mk("trunc", mul(num("0.8"), NF(sym("a0"), "n_sample")))), ("SampleReader", "default", "has_header", FALSE)):
        b = ctx.fn(fn, adt)
        if b:
            v = F(ctx.run(b).ret, f)
            if v.op == "proj":
                ctx.undecided(f"{adt}.{fn}.{f}", b, f"no field {f}")
            else:
                ctx.same(f"{adt}.{fn}.{f}", v, want, b, f"documented default of `{f}`")


def shown(t):
    """values a text displays, in order (literals left out)"""
    nm = str(t.args[0]) if t.op == "call" else t.op
    arg = t.args[1:] if t.op == "call" else t.args
    if nm == "format":
        return shown(arg[0])
    if nm == "fmt":
        out = []
        for a in (arg[1].args if len(arg) > 1 and arg[1].op == "list" else ()):
            an = a.args[1:] if a.op == "call" else a.args
            out += shown(an[-1]) if (a.op == "arg" or a.op == "call" and str(a.args[0]) == "arg") else [a]
        return out
    if nm == "to_string":
        return shown(arg[0])
    if t.op == "str":
        return []
    return [t]


def literal(t):
    """literal text of a format"""
    import re
    out = []
    for x in contains(t, lambda x: x.op == "str"):
        m = re.match(r"ByteStr\(\[([\d, ]*)\]", str(x.args[0]))
        if m:
            out.append(bytes(int(v) for v in m.group(1).split(",") if v.strip()))
        else:
            out.append(str(x.args[0]).encode())
    return b"".join(out)


def reported(ctx):
    """what `info` of boosters and weak learners shows"""
    def fu(v):
        return mk("call", "format_unit", v)

    def common(base):
        return {"# of examples": [NF(base, "sample", "n_sample")], "# of features": [NF(base, "sample", "n_feature")]}

    def capping(base):
        return {"Capping (outliers)": [fu(NF(base, "nu")), div(mul(num(100), NF(base, "nu")), NF(base, "sample", "n_sample"))]}
    half_tol = {"Tolerance": [mul(num(2), NF(S, "half_tolerance"))], "Max iteration": [NF(S, "max_iter")]}
    tol = {"Tolerance": [NF(S, "tolerance")]}
    sb = F(S, "softboost")
    quit_ = {"Force quit": "quit", "Max iteration": "max_loop"}
    it = {"Max iteration": [NF(S, "max_iter")]}
    table = {
        "AdaBoost": {**common(S), **tol, **quit_}, "AdaBoostV": {**common(S), **tol, **quit_}, "MadaBoost": {**common(S), **tol, **quit_},
        "SmoothBoost": {**common(S), **it, "Tolerance (Kappa)": [NF(S, "kappa")], "Theta": [NF(S, "theta")], "Gamma (WL guarantee)": [NF(S, "gamma")]},
        "LPBoost": {**common(S), **tol, **capping(S)}, "ERLPBoost": {**common(S), **half_tol, **capping(S)},
        "SoftBoost": {**common(S), **tol, **it, **capping(S), "Tolerance (sub-problem)": [NF(S, "sub_tolerance")]},
        "TotalBoost": {**common(sb), **capping(sb), "Tolerance": [NF(sb, "tolerance")], "Max iteration": [NF(sb, "max_iter")]},
        "CERLPBoost": {**common(S), **half_tol, **capping(S), "Frank-Wolfe": [F(S, "frank_wolfe", "fw_type")]},
        "MLPBoost": {**common(S), **half_tol, **capping(S), "Primary": [F(S, "primary", "fw_type")]},
        "GraphSepBoost": common(S),
        "GBM": {**common(S), **tol, **it, "Loss": "name"},
        "DecisionTree": {"# of bins (max)": "bins", "Max depth": [F(S, "max_depth")], "Split criterion": [F(S, "criterion")]},
        "RegressionTree": {"# of bins (max)": "bins", "Max depth": [F(S, "max_depth")], "Split criterion": "lname", "Regularization param.": [NF(S, "lambda_l2")]},
        "NeuralNetwork": {"Task": [F(S, "task")], "Mini-batch size": [NF(S, "minibatch_size")], "Rounds per epoch": [NF(S, "n_iter_per_epoch")], "Learning rate": [NF(S, "learning_rate")],
                          "# of epochs": [NF(S, "n_epoch")], "# of layers": [length(F(S, "activations"))], "Loss": [F(S, "loss_func")]},
    }
    last = lambda x: mk("call", str(x.args[0]).split("::")[-1], *x.args[1:]) if x.op == "call" else x
    for adt, want in table.items():
        b = ctx.fn("info", adt)
        if not b:
            continue
        r = ctx.run(b, opaque=("format_unit",))
        v = r.ret
        rows = vproj(v, "Some", "0")
        if rows.op != "list":
            ctx.undecided(f"{adt}.info", b, clip(v, 120))
            continue
        for row in rows.args:
            lab, val = proj(row, "0"), proj(row, "1")
            if lab.op != "str" or str(lab.args[0]) not in want:
                continue
            key = f"{adt}.info.{lab.args[0]}"
            w = want[str(lab.args[0])]
            if w == "quit":
                fq = F(S, "force_quit_at")
                g = is_variant(fq, "Some")
                ok = None
                for c, x in cases(val):
                    if equal(c, g):
                        ctx.same(key, mk("list", *[mark_num(q) for q in shown(x)]), mk("list", mark_num(vproj(fq, "Some", "0"))), b, "the round of a forced stop is shown")
                        ok = True
                if not ok:
                    ctx.undecided(key, b, clip(val, 120))
                continue
            if w == "max_loop":
                bm = [x for x in ctx.prog.find("max_loop", adt)]
                w = [ctx.run(bm[0]).ret] if bm else [NF(S, "max_iter")]
                alt = [mk("list", *w), mk("list", NF(S, "max_iter"))]
            elif w == "name":
                alt = [mk("list", mk("name", F(S, "loss"))), mk("list", mk("call", "name", F(S, "loss")))]
            elif w == "lname":
                alt = [mk("list", mk("name", F(S, "loss_func"))), mk("list", mk("call", "name", F(S, "loss_func")))]
            elif w == "bins":
                q = shown(val)
                if len(q) == 1 and not unresolved(q[0]):
                    mx = contains(q[0], lambda x: x.op in ("maxof", "fold"))
                    ctx.ob(key, bool(mx) and all(x.op == "maxof" for x in mx), b, "the largest number of bins of a column is shown")
                else:
                    ctx.undecided(key, b, clip(val, 120))
                continue
            else:
                alt = [mk("list", *w)]
            got = [last(q) for q in shown(val)]
            num_ = lambda l: mk("list", *[mark_num(q) if q.op in ("proj", "sym", "call") else q for q in l.args])
            ctx.same(key, num_(mk("list", *got)), [num_(a) for a in alt], b, f"the value shown as `{lab.args[0]}` is the one in force")
    b = ctx.fn("format_unit", module="common::utils", private=True)
    if b:
        x = mark_num(sym("a0"))
        r = ctx.run(b)
        units = {b"K": 3, b"M": 6, b"G": 9}
        for c, v in cases(r.ret):
            q = shown(v)
            if len(q) != 1 or q[0] is v:
                ctx.undecided("format_unit", b, clip(v, 100))
                continue
            lit = literal(v)
            e = [p for u, p in units.items() if u in lit]
            p = e[0] if len(e) == 1 else 0
            if p == 0:
                ctx.same("format_unit.plain", c, [lt(x, num(1000)), le(x, num(1000))], b, "values below a thousand are shown as they are")
            ctx.same(f"format_unit.1e{p}", mark_num(q[0]), div(x, num(10 ** p)), b, "a value shown in thousands, millions or billions is divided by the unit")


def texts(ctx):
    """texts of configuration values: one per choice"""
    import re
    for adt in ("FWType", "Task", "Criterion", "NNLoss"):
        b = ctx.fn("fmt", adt, trait="Display", private=True)
        if not b:
            continue
        r = ctx.run(b)
        ws = contains(r.ret, lambda x: x.op == "write_fmt" or (x.op == "call" and str(x.args[0]).endswith(("write_str", "write_fmt"))))
        vs = shown(ws[0].args[-1]) if len(ws) == 1 else []
        if len(vs) != 1:
            ctx.undecided(f"{adt}.text", b, clip(r.ret, 120))
            continue
        norm = lambda x: re.sub("[^a-z0-9]", "", x.lower())
        txt = {}
        for v in VARIANTS[adt]:
            t = subst(vs[0], {is_variant(S, w): TRUE if w == v else FALSE for w in VARIANTS[adt]})
            if unresolved(t) or contains(t, lambda x: x.op in ("is", "ite")):
                txt = None
                break
            txt[v] = norm(literal(t).decode("ascii", "ignore"))
        if not txt:
            ctx.undecided(f"{adt}.text", b, clip(vs[0], 120))
            continue
        for v, t in txt.items():
            bad = [w for w in txt if w != v and (txt[w] == t or t.startswith(w.lower()))]
            ctx.ob(f"{adt}.text.{v}", not bad, b, f"`{v}` is shown as `{t}`, the text of {', '.join(bad)}")


VARIANTS = {"FWType": ("Classic", "ShortStep", "LineSearch", "BlendedPairwise"), "Task": ("Binary", "MultiClass", "Regression"),
            "Criterion": ("Entropy", "Edge", "Gini", "Twoing"), "NNLoss": ("L2", "CrossEntropy")}
