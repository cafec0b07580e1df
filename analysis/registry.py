"""Property registry: runs the rule module of a property and reports."""
import importlib, json, os, pkgutil, re, signal, time, traceback
import rulelib

_rules = {}


# obligations of one property that another one rests on: the formula a round uses, the
# configuration a learner is built with, the access a walk reads rows by
SHARED = {
    "C02": [("C25", r"margins_of_hypothesis$|inner_product$|normalize")],
    "C04": [("C25", r"WeightedMajority\.(from_slices|push|normalize)"), ("C02", r".*\.(weights|hypotheses)$")],
    "C05": [("C28", r"(AdaBoost|AdaBoostV|MadaBoost|SmoothBoost|LPBoost|ERLPBoost|CERLPBoost|MLPBoost|SoftBoost|TotalBoost|GBM)\.(tolerance|gamma|nu|force_quit_at|init\.(sample|nu|tolerance|half_tolerance|force_quit_at))")],
    "C07": [("C25", r"(edge|margins)_of|exp_distribution|entropy|inner_product$"), ("C21", r".*"), ("C05", r".*stops-beyond-limit$"),
            ("C08", r"\w+\.(dist|weights|weight|value|distribution|returned|fail.*|stop.*|step.*|start.*|solve|solver|when|final\.(dist|weights|weight|value|returned))$")],
    "C10": [("C28", r"(DecisionTree|RegressionTree)Builder\.(max_depth|loss|new\.depth|build\.(max_depth|loss|n_sample))")],
    "C11": [("C15", r".*index"), ("C16", r"index$")],
    "C12": [("C28", r"(DecisionTree|RegressionTree)Builder\.(set_nbins|new\.bins)"), ("C15", r".*index|Sparse\.(has_zero|len)$|.*distinct")],
    "C13": [("C28", r"DecisionTreeBuilder\.(criterion|new\.criterion|build\.criterion)")],
    "C14": [("C28", r"RegressionTreeBuilder\.(lambda_l2|new\.lambda_l2|build\.lambda_l2)")],
    "C16": [("C15", r".*index|.*append|.*into_target")],
    "C17": [("C28", r"SampleReader\."), ("C16", r"set_target\.|remove\."), ("C15", r".*append|.*into_target")],
    "C18": [("C16", r"split\.|append\.|at\."), ("C15", r".*append")],
    "C21": [("C25", r"(edge|margins)_of|exp_distribution"), ("C07", r"MLPBoost\.(primary.*|start-(step-)?eta)$|CERLPBoost\.(step.*|weights|start-.*)$")],
    "C24": [("C15", r".*(mean|variance)"), ("C25", r"total_weight_for_label")],
    "C26": [("C23", r"GBMLoss\.coef|median")],
    "C27": [("C28", r"(Logger|LoggerBuilder)\.")],
    "C30": [("C28", r"BadBaseLearnerBuilder\."), ("C25", r"(edge|margins)_of_hypothesis$")],
    "C33": [("C23", r"binarize|vectorize|discretize|Activation|NNLoss"), ("C28", r"NeuralNetwork\.")],
}


def share(ctx, pid):
    """decides the obligations of other properties that this one rests on"""
    for other, keys in SHARED.get(pid, ()):
        sub = rulelib.Ctx(ctx.prog, ctx.tier)
        _rules[other][0](sub)
        for o in sub.obls:
            if re.match(keys, o["key"]):
                ctx.obls.append(dict(o, key=f"{other}:{o['key']}"))
        for v in sub.viols:
            if re.match(keys, v["key"]):
                ctx.viols.append(dict(v, key=f"{other}:{v['key']}"))
        ctx.notes += [f"{other}:{n}" for n in sub.notes if re.match(keys, n)]
        ctx.relaxed = ctx.relaxed or sub.relaxed
        ctx.funcs |= {o["fn"] for o in sub.obls if re.match(keys, o["key"])}


def rule(pid, explanation, assumptions=(), floor=1):
    def d(f):
        _rules[pid] = (f, explanation, list(assumptions), floor)
        return f
    return d


def load():
    d = os.path.join(os.path.dirname(os.path.abspath(__file__)), "rules")
    for m in sorted(os.listdir(d)):
        if m.endswith(".py") and not m.startswith("_"):
            importlib.import_module(m[:-3])


def ids():
    load()
    return sorted(_rules)


def known(here):
    """key -> text of the recorded findings"""
    out = {}
    p = os.path.join(here, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding:"):
                # finding: property=<id> key=<key> :: text
                body = line[len("finding:"):].strip()
                head, text = body.split(" :: ", 1)
                kv = dict(x.split("=", 1) for x in head.split(" ", 1))
                out[(kv["property"], kv["key"])] = text
    return out


def run(pid, prog, tier, t0, digest, here):
    load()
    if pid not in _rules:
        print(f"ERROR unknown property {pid}")
        return 2
    f, explanation, assumptions, floor = _rules[pid]
    ctx = rulelib.Ctx(prog, tier)
    rulelib.BEGUN = time.time()
    # a change that makes the value graphs explode must not keep the check from answering
    signal.signal(signal.SIGVTALRM, rulelib._alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, rulelib.TOTAL)
    try:
        f(ctx)
        share(ctx, pid)
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    except Exception:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        # an analysis that cannot finish decides nothing about the rest
        traceback.print_exc()
        ctx.relaxed = True
        ctx.undecided("analysis", "analysis", "the analysis of the current source did not complete: " + traceback.format_exc().strip().splitlines()[-1])
    if len(ctx.obls) < floor and not ctx.notes and not ctx.relaxed:
        ctx.ob("floor", False, "rule instances", f"only {len(ctx.obls)} obligations were generated, {floor} expected")
    kn = known(here)
    new, old = [], []
    seen = set()
    for v in ctx.viols:
        if v["key"] in seen:
            continue
        seen.add(v["key"])
        (old if (pid, v["key"]) in kn else new).append(v)
    ev = os.path.join(os.environ.get("VERIF_EVIDENCE", os.path.join(here, "evidence")))
    os.makedirs(ev, exist_ok=True)
    rep = os.path.join(ev, f"{pid}.violations.txt")
    if os.path.exists(rep):
        os.unlink(rep)
    for v in old:
        print(f"KNOWN-FINDING: property={pid} {v['key']}: {kn[(pid, v['key'])]}")
    if new:
        with open(rep, "w") as o:
            for v in new:
                o.write(f"rule instance : {v['key']}\nconstruct     : {v['fn']} ({v['at']})\n{v['msg']}\n\n")
    done = sum(1 for o in ctx.obls if o["ok"])
    cov = {
        "explanation": explanation,
        "functions_analysed": len(ctx.funcs),
        "call_sites": ctx.sites,
        "obligations": len(ctx.obls),
        "discharged": done,
        "obligation_list": [{"key": o["key"], "ok": o["ok"], "fn": o["fn"]} for o in ctx.obls],
        "undecided": ctx.notes,
        "renamed_private_items": prog.renamed,
        "program_digest": digest,
        "functions": sorted(ctx.funcs)[:400],
        "known_findings": [v["key"] for v in old],
    }
    json.dump({
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
        "coverage": cov, "assumptions": assumptions, "wall_s": round(time.time() - t0, 2),
        "violations": [{"key": v["key"], "fn": v["fn"], "at": v["at"], "msg": v["msg"][:1500]} for v in new],
    }, open(os.path.join(ev, f"{pid}.json"), "w"), indent=1)
    print(f"{pid}: {len(ctx.funcs)} functions, {ctx.sites} call sites, {done}/{len(ctx.obls)} obligations discharged, {len(old)} known findings")
    for n in ctx.notes[:40]:
        print(f"  UNDECIDED property={pid} {n[:300]}")
    for v in new:
        print(f"  {v['key']} at {v['at']} in {v['fn']}\n    {v['msg'][:900]}")
    if new:
        print(f"VIOLATION property={pid} replay={rep}")
        return 1
    return 0
