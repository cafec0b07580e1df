"""C22: results depend on nothing but the inputs."""
import json
import re
from registry import rule

EFFECTS = [
    ("randomness", re.compile(r"^(rand|getrandom|fastrand)::.*(thread_rng|ThreadRng|from_entropy|from_os_rng|OsRng|getrandom|from_rng|try_from_os_rng)|^rand::(random|rng|thread_rng)|^getrandom::|^rand::rngs::(thread|os)|RandomState::new|RandomState as std::default")),
    ("clock", re.compile(r"(Instant|SystemTime)::now|SystemTime::elapsed|Instant::elapsed")),
    ("environment", re.compile(r"^std::env::|^std::net::|^std::process::(id|Command)|std::thread::(current|available_parallelism)|rayon::current_(num_threads|thread_index)|current_num_threads|stdin")),
    ("address", re.compile(r"ptr::(const_ptr|mut_ptr|non_null).*::(addr|expose_provenance)$|Argument.*::new_pointer|ptr::hash")),
    ("file", re.compile(r"^std::fs::|^std::fs::File|^std::path::Path::(exists|try_exists|is_file|is_dir|is_symlink|metadata|symlink_metadata|read_dir|read_link|canonicalize)|polars.*(CsvRead|from_path)")),
]
UNORD = re.compile(r"(?:hash_map|hash_set)::(?:Iter|IterMut|Keys|Values|ValuesMut|IntoIter|IntoKeys|IntoValues|Drain|Union|Intersection|Difference|SymmetricDifference|ParIter)\b|^&?(?:mut )?std::collections::Hash(?:Map|Set)<")
SHARED = re.compile(r"\b(Atomic\w*|Mutex|RwLock|RefCell|Cell|UnsafeCell)\b")
LAZY = re.compile(r"\b(OnceLock|OnceCell|LazyLock|LazyCell|Lazy)\b")
ADAPT = {"map", "filter", "filter_map", "flat_map", "flatten", "copied", "cloned", "into_iter", "inspect", "by_ref", "iter", "par_bridge", "chain", "peekable", "fuse", "size_hint",
         "into_par_iter", "par_iter", "par_iter_mut", "iter_mut", "values_mut", "clone"}
COMMUTE = {"sum", "product", "count", "len", "any", "all", "max", "min", "unzip_", "for_each_", "is_empty"}
PICK = {"max_by", "min_by", "max_by_key", "min_by_key"}
POSITIONAL = {"position", "find", "find_map", "last", "nth", "take", "skip", "enumerate", "zip", "step_by", "take_while", "skip_while", "scan", "windows", "chunks", "rev"}
SORTS = re.compile(r"^(par_)?sort")
PUSH = {"push", "push_str", "push_back", "push_front", "extend", "extend_from_slice", "append"}


def walk(x, f):
    if isinstance(x, dict):
        f(x)
        for v in x.values():
            walk(v, f)
    elif isinstance(x, list):
        for v in x:
            walk(v, f)


def nodes(x, kind=None):
    out = []
    walk(x, lambda n: out.append(n) if "k" in n and (kind is None or n["k"] == kind) else None)
    return out


def fdef(n):
    g = n.get("f") or n.get("fn") or n
    return g if isinstance(g, dict) and "path" in g else None


def name_of(n):
    g = fdef(n)
    return g.get("name") or g["path"].split("::")[-1]


def peel(e):
    """the variable an expression borrows, if it is one"""
    while isinstance(e, dict) and e.get("k") in ("ref", "deref", "paren", "field", "cast", "call"):
        if e["k"] == "call":
            if not e.get("args"):
                return None
            e = e["args"][0]
        else:
            e = e.get("e")
    return e.get("var") if isinstance(e, dict) and e.get("k") == "var" else None


def base_var(e):
    """the variable a captured place starts from"""
    vs = nodes(e, "var") + nodes(e, "upvar")
    return vs[0].get("var") if vs else None


def binds(p):
    out = []
    walk(p, lambda n: out.append(n["var"]) if n.get("p") == "bind" else None)
    return out


def uses(e):
    return {n["var"] for n in nodes(e, "var")}


def line(P, b, n):
    return f"{b['file']}:{n.get('fline') or n.get('line') or b['line']}"


@rule("C22", "Determinism. (1) Effects: over the call graph of every compiled body (resolved callees, closures, function references) the set of ambient "
      "effects reachable from every public function and trait method is computed -- entropy-seeded randomness, clock, environment, thread identity, files -- and must be "
      "within what that entry is documented to use: only the network's construction and training may draw random numbers, only the readers / the graph writers / the Logger may touch files, "
      "only the Logger may read a clock. (2) Hidden state: no static with interior mutability, no `static mut`, no thread-local is reached, and no type implementing a learner or a "
      "hypothesis has interior mutability, so that calls through `&self` leave nothing behind. (3) Order: every consumer of an iterator over a hash map or hash set, and every "
      "`*_any` search of a parallel iterator, is classified; a result that depends on the iteration order (first element, tie of an arg-max, pushed sequence) is a violation.",
      ["rounding of floating-point sums is outside the property: a sum in a different order is the same real number",
       "what a caller-supplied weak learner, loss or closure does is the caller's",
       "text written to standard output, Display/Debug output and panic messages are not results"], floor=120)
def c22(ctx):
    P = ctx.prog
    B = P.bodies
    calls, direct, unsure = {}, {}, {}
    for k, b in B.items():
        cs, ds, us = set(), {}, {}

        def f(n):
            kk = n.get("k")
            if kk in ("call", "fnref", "zst", "const") or (kk is not None and fdef(n)):
                g = fdef(n)
                if g:
                    for p in (g.get("res"), g["path"]):
                        if p in B:
                            cs.add(p)
                    for p in {g["path"], g.get("res") or g["path"]}:
                        for nm, r in EFFECTS:
                            if r.search(p):
                                ds.setdefault(nm, (g["path"], k, line(P, b, n)))
                        if "LocalKey" in p and re.match(r"std::cell::Cell<", str((g.get("targs") or [""])[0])):
                            ds.setdefault("hidden state", (g["path"], k, line(P, b, n)))
                        elif "LocalKey" in p or re.search(r"std::thread::(spawn|scope|Builder)", p):
                            us.setdefault("thread", (p, k, line(P, b, n)))
                    # what is computed once and kept must not depend on the call it was computed in
                    if re.search(LAZY.pattern + r".*::(get_or_init|get_or_try_init)$", g["path"]):
                        caught = {base_var(u) for c in nodes(n.get("args"), "closure") for u in c.get("upvars", [])}
                        if {v for v in caught if v and not str(v).startswith("self#")}:
                            ds.setdefault("hidden state", (g["path"], k, line(P, b, n)))
            if kk == "cast" and re.match(r"\*(const|mut) ", str(n.get("from", ""))) and re.match(r"[ui](size|8|16|32|64|128)$", str(n.get("ty", ""))):
                ds.setdefault("address", (str(n["from"]), k, line(P, b, n)))
            if kk == "closure" and n.get("id") in B:
                cs.add(n["id"])
            if kk == "static":
                ty = str(n.get("ty", ""))
                if "*mut" in ty or (SHARED.search(ty) and not LAZY.search(ty)):
                    ds.setdefault("hidden state", (n["path"], k, line(P, b, n)))
                elif LAZY.search(ty):
                    us.setdefault("lazy static", (n["path"], k, line(P, b, n)))
        walk(b["body"], f)
        calls[k], direct[k], unsure[k] = cs, ds, us
    full = {k: dict(v) for k, v in direct.items()}
    fun = {k: dict(v) for k, v in unsure.items()}
    ch = True
    while ch:
        ch = False
        for k in B:
            for c in calls[k]:
                for src, dst in ((full[c], full[k]), (fun[c], fun[k])):
                    for e, w in src.items():
                        if e not in dst:
                            dst[e] = w
                            ch = True

    def allowed(b):
        k, n, m = b["key"], b.get("name") or "", b["key"]
        a = set()
        if "neural_network" in k and n in ("produce", "new"):
            a.add("randomness")
        if k.startswith("sample::") and ("reader" in k.lower() or n.startswith("from_")):
            a.add("file")
        if n == "to_dot_file":
            a.add("file")
        if "Logger" in (b.get("owner") or "") or "logger" in k.lower():
            a |= {"file", "clock"}
        return a

    skip = re.compile(r" as (std::fmt::|core::fmt::|serde|std::clone|std::cmp)|::_::|_serde")
    for k, b in sorted(B.items()):
        if b["kind"] == "Closure" or skip.search(k):
            continue
        if not (b.get("reachable") or " as " in k):
            continue
        ctx.funcs.add(k)
        bad = {e: w for e, w in full[k].items() if e not in allowed(b)}
        for e, (what, where, at) in bad.items():
            ctx.ob(f"effects/{k}", False, where, f"`{k}` depends on something other than its inputs: it reaches `{what}` ({e}) in `{where}`", at)
        for e, (what, where, at) in fun[k].items():
            ctx.undecided(f"effects/{k}", where, f"`{k}` reaches `{what}`")
        if not bad and not fun[k]:
            ctx.ob(f"effects/{k}", True, k, "no ambient effect reachable beyond " + (", ".join(sorted(allowed(b))) or "none"))

    # --- hidden state in the types
    def impl_types():
        for i in P.impls:
            tr = str(i.get("trait") or "")
            if re.search(r"(Classifier|Regressor|WeakLearner|Booster|ObjectiveFunction|LossFunction|Booster)\b", tr.split("<")[0]) or tr.split("<")[0].endswith("FrankWolfe"):
                yield tr, str(i.get("self_adt") or i.get("self_ty") or "")
    for tr, ty in sorted(set(impl_types())):
        ad = P.adts.get(ty.split("<")[0])
        if ad is None:
            continue
        hit = []
        seen = set()

        def link(t):
            """links between the nodes of a tree in training"""
            m = re.match(r"std::rc::Rc<std::cell::RefCell<([\w:]+)>>$", t)
            return m and m.group(1) in P.adts

        def look(a):
            if a["path"] in seen:
                return
            seen.add(a["path"])
            for v in a.get("variants", []):
                for fl in v.get("fields", []):
                    t = str(fl.get("ty", ""))
                    if SHARED.search(t) and not link(t) or "*mut" in t:
                        hit.append((a["path"], fl["name"], t))
                    for w in re.findall(r"[A-Za-z_][\w:]*", t):
                        if w in P.adts:
                            look(P.adts[w])
        look(ad)
        # the boosters may own caches behind RefCell: they are run through `&mut self` and C03 judges what a restart sees
        if re.search(r"Booster", tr):
            continue
        ctx.ob(f"state/{ty.split('<')[0]}/{tr.split('<')[0].split('::')[-1]}", not hit, ty, f"`{ty}` can change behind a shared reference: " + "; ".join(f"field `{b}: {c}` of {a}" for a, b, c in hit[:3]))

    # --- order of unordered collections
    for k, b in sorted(B.items()):
        if skip.search(k):
            continue
        body = b["body"]
        allc = [n for n in nodes(body) if n["k"] == "call" and fdef(n)]
        root = k
        sorts = any(SORTS.match(name_of(n)) for n in allc)
        hasname = {name_of(n) for n in allc}
        text = json.dumps(body)
        inloop = set()
        # for loops over an unordered collection
        for n in nodes(body, "match"):
            e = n.get("e")
            if not (n.get("src") == "ForLoopDesugar" and isinstance(e, dict) and e.get("k") == "call" and fdef(e) and name_of(e) == "into_iter"):
                continue
            if not UNORD.search((fdef(e).get("targs") or [""])[0]):
                continue
            lp = nodes(n["arms"], "match")
            lp = [m for m in lp if m.get("src") == "ForLoopDesugar" and isinstance(m.get("e"), dict) and m["e"].get("k") == "call" and name_of(m["e"]) == "next"]
            if not lp:
                continue
            inloop.add(id(lp[0]["e"]))
            arm = [a for a in lp[0]["arms"] if a["pat"].get("variant") == "Some"]
            if not arm:
                continue
            keys = set(binds(arm[0]["pat"]))
            verdict(ctx, P, b, k, arm[0]["body"], keys, sorts, n)
        for n in allc:
            g = fdef(n)
            nm = name_of(n)
            at = line(P, b, n)
            if nm in ("find_any", "position_any", "find_map_any") and "rayon" in g["path"]:
                ctx.ob(f"order/{k}/{nm}", False, k, f"`{nm}` returns whichever match a thread finds first: the result depends on scheduling", at)
                continue
            if "rayon" in g["path"] and nm in ("for_each", "map", "for_each_with", "for_each_init"):
                for c in nodes(n.get("args"), "closure"):
                    cb = B.get(c.get("id"))
                    if not cb:
                        continue
                    cn = {name_of(m): fdef(m)["path"] for m in nodes(cb["body"]) if m["k"] == "call" and fdef(m)}
                    if any(x in cn and re.search("Mutex|RwLock", cn[x]) for x in ("lock", "write")):
                        if PUSH & set(cn) and not sorts:
                            ctx.ob(f"order/{k}/locked", False, k, "a sequence shared between threads is appended to in the order the threads happen to run", at)
                        else:
                            ctx.undecided(f"order/{k}/locked", k, "a parallel closure updates shared state behind a lock")
                    elif any("Atomic" in p for p in cn.values()):
                        ctx.undecided(f"order/{k}/atomic", k, "a parallel closure updates an atomic")
            ts = g.get("targs") or []
            if not ts or not UNORD.search(str(ts[0])) or "Iterator" not in (g.get("trait") or ""):
                continue
            if nm in ADAPT or id(n) in inloop:
                continue
            ty = str(n.get("ty", ""))
            key = f"order/{k}/{nm}"
            if nm in COMMUTE:
                ctx.ob(key, True, k, "the consumer does not depend on the order", at)
            elif nm in ("collect", "from_iter", "extend"):
                tgt = " ".join(str(t) for t in ts[1:]) + " " + ty
                if re.search(r"(Hash|BTree)(Map|Set)|BinaryHeap", tgt) and "Vec<" not in tgt.split("Hash")[0].split("BTree")[0]:
                    ctx.ob(key, True, k, "collected into a keyed collection", at)
                elif sorts:
                    ctx.ob(key, True, k, "collected and sorted", at)
                else:
                    collected(ctx, P, b, k, key, n, at, allc)
            elif nm in PICK:
                clo = [B[c["id"]] for c in nodes(n.get("args", [])[1:], "closure") if c.get("id") in B]
                names = set()
                for c in clo:
                    names |= {name_of(m) for m in nodes(c["body"]) if m["k"] == "call" and fdef(m)}
                prim = re.search(r"Option<&?(&?)(f64|f32|usize|isize|[ui](8|16|32|64|128))>", ty)
                if prim and not clo or prim and names <= {"partial_cmp", "total_cmp", "cmp", "unwrap", "expect"}:
                    ctx.ob(key, True, k, "equal candidates are indistinguishable", at)
                elif {"then", "then_with", "is_eq"} & names:
                    ctx.undecided(key, k, f"`{nm}` over an unordered collection breaks ties by a second comparison")
                else:
                    ctx.ob(key, False, k, f"`{nm}` over a hash map or set: between equal candidates the winner depends on the iteration order, which differs from one map to the next", at)
            elif nm in ("reduce", "fold", "try_fold"):
                a = n.get("args", [])
                s = json.dumps(a[-1]) if a else ""
                ids = [B[c["id"]] for c in nodes(a[-1:], "closure") if c.get("id") in B]
                if re.search(r"::(max|min|add|mul|bitor|bitand)\b", s) and not ids:
                    ctx.ob(key, True, k, "commutative reduction", at)
                else:
                    bn = {m.get("op") for c in ids for m in nodes(c["body"], "binary")}
                    cn = {name_of(m) for c in ids for m in nodes(c["body"]) if m["k"] == "call" and fdef(m)}
                    if PUSH & cn and not sorts:
                        ctx.ob(key, False, k, f"`{nm}` appends the elements of an unordered collection in iteration order", at)
                    elif cn <= {"max", "min", "add", "mul", "abs", "powi", "sqrt", "ln", "exp", "deref", "clone"} and ids and not nodes([c["body"] for c in ids], "if"):
                        ctx.ob(key, True, k, "commutative reduction", at)
                    else:
                        ctx.undecided(key, k, f"`{nm}` over an unordered collection")
            elif nm == "next":
                if hasname & {"len", "count", "is_empty"} or "1" in re.findall(r'"int": "?(\d+)', text):
                    ctx.undecided(key, k, "first element of an unordered collection, with its size inspected")
                else:
                    ctx.ob(key, False, k, "the first element of a hash map or set depends on its iteration order", at)
            elif nm in POSITIONAL:
                if nm in ("find", "find_map", "take_while", "skip_while", "take", "skip", "zip", "enumerate", "nth", "last", "step_by", "scan", "position", "rev") and not sorts:
                    if nm in ("find", "find_map", "position"):
                        clo = [B[c["id"]] for c in nodes(n.get("args", [])[1:], "closure") if c.get("id") in B]
                        if clo and any(m.get("op") in ("Eq", "eq", "==") for c in clo for m in nodes(c["body"], "binary")):
                            ctx.undecided(key, k, f"`{nm}` by equality over an unordered collection")
                            continue
                    ctx.ob(key, False, k, f"`{nm}` over a hash map or set depends on its iteration order", at)
                else:
                    ctx.undecided(key, k, f"`{nm}` over an unordered collection")
            elif nm == "for_each":
                clo = [B[c["id"]] for c in nodes(n.get("args", [])[1:], "closure") if c.get("id") in B]
                for c in clo:
                    keys = set(binds(c.get("params")))
                    verdict(ctx, P, b, k, c["body"], keys, sorts, n)
            else:
                ctx.undecided(key, k, f"`{nm}` over an unordered collection")


def collected(ctx, P, b, k, key, n, at, allc):
    """a sequence in hash order: what is done with it?"""
    var = None
    for s in nodes_stmt(b["body"]):
        if s.get("init") is n or (isinstance(s.get("init"), dict) and contains(s["init"], n)):
            bs = binds(s.get("pat"))
            var = bs[0] if len(bs) == 1 else None
    body = b["body"]
    tail = body
    while isinstance(tail, dict) and tail.get("k") in ("block", "scope", "use") and (tail.get("expr") or tail.get("e")):
        tail = tail.get("expr") or tail.get("e")
    if tail is n or (isinstance(tail, dict) and tail.get("k") == "var" and var and tail["var"] == var):
        if "String" in str(n.get("ty", "")):
            ctx.undecided(key, k, "text in iteration order")
        else:
            ctx.ob(key, False, k, "the returned sequence is in the iteration order of a hash map or set", at)
        return
    if var:
        bad = [m for m in allc if name_of(m) in {"first", "last", "pop", "find", "position", "enumerate", "zip", "get", "index", "swap_remove", "choose", "shuffle"} | PICK and m.get("args") and peel(m["args"][0]) == var]
        if bad:
            ctx.ob(key, False, k, f"a sequence in the iteration order of a hash map or set is read by position (`{name_of(bad[0])}`)", at)
            return
    ctx.undecided(key, k, "a sequence collected in the iteration order of a hash map or set")


def nodes_stmt(x):
    out = []
    walk(x, lambda n: out.append(n) if "s" in n else None)
    return out


def contains(x, n):
    hit = []
    walk(x, lambda m: hit.append(1) if m is n else None)
    return bool(hit)


def verdict(ctx, P, b, k, body, keys, sorts, at):
    """is the effect of a loop body the same in every order of the elements?"""
    key = f"order/{k}/for"
    where = line(P, b, at)
    local = set(keys)
    for s in nodes_stmt(body):
        if s.get("pat"):
            local |= set(binds(s["pat"]))
    for m in nodes(body, "match"):
        for a in m.get("arms", []):
            local |= set(binds(a.get("pat")))
    bad, unk = [], []
    derived = set(keys)
    for _ in range(3):
        for s in nodes_stmt(body):
            if s.get("pat") and s.get("init") and uses(s["init"]) & derived:
                derived |= set(binds(s["pat"]))
    ifs = nodes(body, "if") + nodes(body, "match")
    for n in nodes(body):
        kk = n["k"]
        if kk in ("return", "break") and not (n.get("mac") and "~ForLoop" in n["mac"]):
            (unk).append(f"leaves the loop at {line(P, b, n)}")
        elif kk == "assignop":
            if "String" in str(n.get("l", {}).get("ty", "")):
                bad.append("text is appended in iteration order")
        elif kk == "assign":
            t = n.get("l")
            v = peel(t)
            if v in local:
                continue
            idx = [m for m in nodes(t, "call") if fdef(m) and name_of(m) in ("index_mut", "get_mut", "entry")] + nodes(t, "index")
            if idx:
                if not (uses(t) & derived):
                    unk.append(f"assigns a fixed element at {line(P, b, n)}")
                continue
            r = n.get("r")
            rn = {name_of(m) for m in nodes(r) if m["k"] == "call" and fdef(m)}
            if v in uses(r) and (rn & {"max", "min"} or not rn):
                continue
            if uses(r) & derived:
                conds = [i for i in ifs if contains(i, n)]
                cv = set()
                for i in conds:
                    cv |= uses(i.get("cond") or i.get("e") or {})
                # an element kept because another quantity was larger: ties are settled by the order
                kept = uses(r) & keys
                if conds and kept and not (kept & cv) and not conds_tie(conds):
                    bad.append("keeps an element chosen by comparing something else, so that ties depend on the iteration order")
                elif not conds:
                    bad.append("keeps whichever element comes last")
                else:
                    unk.append(f"assigns a value of the element at {line(P, b, n)}")
        elif kk == "call" and fdef(n) and n.get("args"):
            nm = name_of(n)
            v = peel(n["args"][0])
            if v in local or v is None:
                continue
            a0 = n["args"][0]
            if nm in PUSH and not sorts:
                tgt = nodes(a0, "call")
                if any(uses(m) & derived for m in tgt):
                    continue            # a sequence of its own per key
                bad.append(f"appends (`{nm}`) in iteration order")
    if bad:
        ctx.ob(key, False, k, "a loop over a hash map or set: " + "; ".join(sorted(set(bad))), where)
    elif unk:
        ctx.undecided(key, k, "a loop over an unordered collection " + "; ".join(unk[:3]))
    else:
        ctx.ob(key, True, k, "every element has an effect independent of the order", where)


def conds_tie(conds):
    return any(m.get("op") in ("Eq", "eq", "==") or (m["k"] == "call" and fdef(m) and name_of(m) in ("then", "then_with", "eq")) for i in conds for m in nodes(i.get("cond") or {}))
