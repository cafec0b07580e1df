"""Shared machinery of the rule modules: running the value-graph analysis on a
function, comparing value graphs, recording obligations."""
from terms import *
import terms as TM
import signal, threading, time
from interp import Interp, State, NUM_TYPES, strip_ref, subterms, contains_term, is_variant


class OutOfTime(Exception):
    """the analysis of one function takes longer than the check can wait"""


def _alarm(sig, frame):
    raise OutOfTime("time limit of one function's analysis")


BEGUN = time.time()
TOTAL = 600


class Res:
    """result of analysing one function"""

    def __init__(self, body, ip, st, ret, roots):
        self.body, self.ip, self.st, self.ret, self.roots = body, ip, st, ret, roots
        self.events, self.assumes, self.loops, self.notes = ip.events, ip.assumes, ip.loops, ip.notes

    def out(self, name="self"):
        """final value of a by-reference parameter"""
        v = self.st.store[self.roots[name]]
        return self.ip.deref(self.st, v)

    def field(self, *path):
        v = self.out("self")
        for p in path:
            v = proj(v, p)
        return v

    def calls(self, *names):
        return [e for e in self.events if e.kind == "call" and e.key and any(str(e.key).split("::")[-1] == n for n in names)]


class Ctx:
    def __init__(self, prog, tier):
        self.prog, self.tier = prog, tier
        self.obls = []
        self.viols = []
        self.funcs = set()
        self.sites = 0
        self.cache = {}
        self.notes = []
        self.lost = {}
        self.relaxed = False

    # ------------------------------------------------------------ obligations
    def ob(self, key, ok, where, msg, at=None):
        """one obligation; `where` is a body (or text)"""
        if isinstance(where, dict):
            loc = f"{where['file']}:{where['line']}"
            fn = where["key"]
        else:
            loc = fn = str(where)
        if at:
            loc = at
        if not ok and fn in self.lost:
            # a write whose target the engine could not resolve: nothing follows from what it sees
            self.undecided(key, where, self.lost[fn])
            return False
        self.obls.append({"key": key, "ok": bool(ok), "at": loc, "fn": fn})
        if not ok:
            self.viols.append({"key": key, "fn": fn, "at": loc, "msg": msg})
        return bool(ok)

    def missing(self, key, what):
        self.ob(key, False, what, f"anchor not found: {what}")

    def undecided(self, key, where, why):
        self.notes.append(f"{key}: undecided ({why})")

    # ---------------------------------------------------------------- lookups
    def fn(self, name, adt=None, trait=None, module=None, key=None, private=False):
        """the function with that name; absence of a public one breaks the property, absence of a
        private one (restructured code) leaves what hangs on it undecided"""
        c = self.prog.find(name, adt, trait, module)
        if len(c) == 1:
            return c[0]
        if private:
            self.relaxed = True
            self.undecided(key or f"anchor:{adt or module or ''}::{name}", "", f"private function {adt or module or ''}::{name} not found")
            return None
        self.missing(key or f"anchor:{adt or module or ''}::{name}", f"function {adt or module or ''}::{name} (found {len(c)})")
        return None

    # ---------------------------------------------------------------- running
    def run(self, body, opaque=(), args=None, fields=None, maxsteps=None, trait_default=False, lens=None, limit=200, succeed=()):
        """analyse a body; parameters are symbols self, a1, a2, ...  `limit`: seconds after which
        the analysis gives up (OutOfTime)"""
        ck = (body["key"], tuple(sorted(opaque)) if not callable(opaque) else opaque, repr(lens), repr(fields), tuple(succeed))
        if args is None and ck in self.cache:
            return self.cache[ck]
        op = opaque if callable(opaque) else (lambda key, f: any(key == o or str(key).split("::")[-1] == o for o in opaque))
        ip = Interp(self.prog, op)
        ip.inline_trait_default = trait_default
        ip.lenenv = dict(lens or {})
        ip.succeed = tuple(succeed)
        if maxsteps:
            ip.maxsteps = maxsteps
        st = State()
        vals, roots = [], {}
        for n, p in enumerate(body["params"]):
            nm = p["pat"]["name"] if p["pat"] and p["pat"]["p"] == "bind" else f"a{n}"
            nm = "self" if nm == "self" else f"a{n}"
            v = None
            if args and nm in args:
                v = args[nm]
            if v is None:
                v = mk("sym", nm)
            if fields and nm == "self":
                v = obj(v, fields)
            if strip_ref(p["ty"]) in NUM_TYPES:
                mark_num(v)
            roots[nm] = ("P", nm)
            st.store[("P", nm)] = v
            if p["ty"].startswith("&mut") or (p["ty"].startswith("&") and ip.has_cell(p["ty"])):
                v = mk("place", ("P", nm), ())
            elif nm == "self" and not p["ty"].startswith("&") and p["pat"]["p"] == "bind":
                pass
            vals.append(v)
        left = max(1, min(limit, TOTAL - (time.time() - BEGUN)))
        timed = threading.current_thread() is threading.main_thread()
        if timed:
            signal.signal(signal.SIGALRM, _alarm)
            signal.setitimer(signal.ITIMER_REAL, left)
        try:
            ret = ip.inline(body, vals, st)
        finally:
            if timed:
                signal.setitimer(signal.ITIMER_REAL, 0)
        self.funcs |= {body["key"]} | ip.analysed
        self.sites += ip.sites
        for n in ip.notes:
            if "unknown place" in n[0]:
                self.lost[body["key"]] = f"{n[0]} at line {n[2]}"
        r = Res(body, ip, st, ip.deref(st, ret), roots)
        if args is None:
            self.cache[ck] = r
        return r

    # ------------------------------------------------------------- comparison
    def same(self, key, got, want, where, what, env=None, alt=None):
        """obligation: the value graph `got` equals the specification `want`.  When they differ
        and `got` contains parts the engine could not resolve, nothing is concluded: the
        obligation is recorded as undecided (`alt`, a weaker rule, decides then)."""
        if env:
            got = canon(got, env)
            want = [canon(w, env) for w in want] if isinstance(want, (list, tuple)) else canon(want, env)
        wants = want if isinstance(want, (list, tuple)) else [want]
        if any(equal(got, w) for w in wants) or any(equal_cases(got, w) for w in wants):
            return self.ob(key, True, where, what)
        g2, ws2 = plain(got), [plain(w) for w in wants]
        if (g2 is not got or any(x is not y for x, y in zip(ws2, wants))) and any(equal_cases(g2, w) for w in ws2):
            return self.ob(key, True, where, what)
        un = unresolved(got) - set().union(*[unresolved(w) for w in wants])
        if un:
            if alt is not None:
                return self.ob(key, alt(), where, what)
            self.undecided(key, where, f"{what}: unresolved {', '.join(sorted(clip(u, 120) for u in list(un)[:3]))}")
            return None
        d = diff(got, wants[0]) or (got, wants[0])
        return self.ob(key, False, where, f"{what}: the code computes {clip(d[0], 500)} where the property requires {clip(d[1], 500)}")


def plain(t):
    """one form for collections built in different ways: a map or set filled entry by entry is the
    one collected from the entries; a vector with one position overwritten is a vector"""
    def f(x):
        if x.op == "tallyon" and x.args[0].op == "mapempty" and x.args[1].op == "tally" and x.args[2] == "=":
            i, (d, g, kv) = open_(x.args[1])
            if kv.op == "kv" and isinstance(g, T):
                if kv.args[1] is mk("tuple"):
                    return mk("call", "collect_HashSet", seq(i, d, g, kv.args[0]))
                return mk("call", "collect_HashMap", seq(i, d, g, mk("tuple", *kv.args)))
        if x.op == "mapset" and x.args[0].op == "mapempty":
            if x.args[2] is mk("tuple"):
                return mk("call", "collect_HashSet", mk("list", x.args[1]))
            return mk("call", "collect_HashMap", mk("list", mk("tuple", x.args[1], x.args[2])))
        if x.op == "upd" and x.args[0].op == "seq":
            i, (d, g, e) = open_(x.args[0])
            if g is TRUE and d.args and d.args[0] is ZERO:
                return seq(i, d, TRUE, ite(zero(sub(i, x.args[1])), x.args[2], e))
        return x
    return rewrite(t, f)


def splitters(a, b):
    """conditions (without bound variables) two terms depend on, the conditions of chains first"""
    def of(t):
        out = set()
        for x in subterms(t):
            if x.op in ("pos", "zero", "is", "any", "all") and not any(y.op == "bv" for y in fvs(x)):
                out.add(x)
        return out
    cs = of(a) | of(b)
    # a condition nested in another one is decided first
    return sorted(cs, key=lambda c: (sum(1 for x in subterms(c) if x in cs), c.id))


def equal_cases(a, b, n=8, budget=None):
    """equal under every combination of the truth values of the conditions both depend on"""
    if budget is None:
        budget = [64, time.time() + 15]
        if equal(a, b):
            return True
    budget[0] -= 1
    if budget[0] < 0 or time.time() > budget[1]:
        return False
    if a.op == "seq" and b.op == "seq":
        i = fresh()
        _, (d1, g1, e1) = open_(a, i)
        _, (d2, g2, e2) = open_(b, i)
        if equal(d1, d2) and scalar_eq(g1, g2):
            a, b = e1, e2
    cs = splitters(a, b)
    if not cs or n == 0 or len(cs) > 12:
        return False
    c = cs[0]
    for v in (TRUE, FALSE):
        m = {c: v}
        if v is TRUE and c.op in ("pos", "zero") and isinstance(c.args[0], T):
            # positive and zero exclude each other
            p = c.args[0]
            for o in cs:
                if o is not c and o.op in ("pos", "zero") and (o.args[0] is p or o.args[0] is neg(p)) and (o.op != "zero" or c.op != "zero"):
                    m[o] = FALSE
        x, y = subst(a, m), subst(b, m)
        if v is TRUE and c.op == "zero":
            # an index known to be a certain position
            q = as_poly(c.args[0])
            ks = [mm[0][0] for mm, k in q.items() if len(mm) == 1 and mm[0][1] == 1 and abs(k) == 1 and mm[0][0].op == "idx"]
            if ks:
                w = subst(c.args[0], {ks[0]: ZERO})
                w = w if q[((ks[0], 1),)] == -1 else neg(w)
                if ks[0] not in fvs(w):
                    x, y = subst(x, {ks[0]: w}), subst(y, {ks[0]: w})
        if not (equal(x, y) or equal_cases(x, y, n - 1, budget)):
            return False
    return True


UNRES = {"loopout", "loopvar", "havoc", "setslice", "big", "rec", "mapover", "prefix", "updv"}


def unresolved(t):
    """parts of a value graph whose value the engine does not know"""
    if not isinstance(t, T):
        return set()

    def p(x):
        if x.op in UNRES:
            return True
        if x.op == "call":
            n = x.args[0]
            return isinstance(n, str) and (n.startswith("?") or n in ("apply", "compacted", "zipfiltered", "next_filtered", "try_for_each", "rank", "reduce") or n.startswith("iter_"))
        return False

    return set(contains(t, p))


def clip(t, n=700):
    s = show(t) if isinstance(t, T) else str(t)
    return s if len(s) <= n else s[:n] + "…"


def canon(t, env):
    """replace lengths known to coincide by one representative"""
    m = dict(env)
    for _ in range(3):
        r = subst(t, m)
        if r is t:
            break
        t = r
    return t


def equal(a, b, depth=0):
    if a is b:
        return True
    if depth > 60:
        return False
    d = depth + 1
    if a.op == "ite" or b.op == "ite":
        ca, cb = cases(a), cases(b)
        used = {}
        # group by value
        ga, gb = group(ca, d), group(cb, d)
        if len(ga) != len(gb):
            return False
        for v, g in ga:
            hit = [g2 for v2, g2 in gb if equal(v, v2, d)]
            if len(hit) != 1 or not scalar_eq(hit[0], g):
                return False
        return True
    if a.op in ("seq",) and b.op == "seq":
        i = fresh()
        _, (d1, g1, e1) = open_(a, i)
        _, (d2, g2, e2) = open_(b, i)
        return equal(d1, d2, d) and scalar_eq(g1, g2) and equal(e1, e2, d)
    if a.op in BINDERS and b.op == a.op and len(a.args) == len(b.args):
        i = fresh()
        x, y = open_(a, i)[1], open_(b, i)[1]
        return all(_eqany(p, q, d) for p, q in zip(x, y))
    if a.op == "poly" or b.op == "poly":
        return scalar_eq(a, b, d)
    if (a.op in VECS or b.op in VECS) and (a.op == "upd" or b.op == "upd" or a.op != b.op):
        sa, sb = segments(a), segments(b)
        if (len(sa) > 1 or len(sb) > 1) and len(sa) == len(sb):
            return all(equal(x, y, d) for x, y in zip(sa, sb))
        if len(sa) == len(sb) == 1 and (sa[0] is not a or sb[0] is not b):
            return equal(sa[0], sb[0], d)
        if (len(sa) > 1 or len(sb) > 1 or a.op != b.op and (a.op in POSN and b.op in POSN)) and piecewise_eq(a, b, d):
            return True
    if a.op == b.op == "concat" and len(a.args) != len(b.args):
        return piecewise_eq(a, b, d)
    if a.op != b.op or len(a.args) != len(b.args):
        return False
    if not a.args:
        return False
    if all(_eqany(x, y, d) for x, y in zip(a.args, b.args)):
        return True
    if a.op == "concat" and piecewise_eq(a, b, d):
        return True
    return a.op in ("max", "min") and len(a.args) == 2 and _eqany(a.args[0], b.args[1], d) and _eqany(a.args[1], b.args[0], d)


POSN = ("seq", "list", "concat", "upd", "slice", "setslice")
VECS = ("seq", "list", "concat", "upd", "flat", "setslice")


def segments(t):
    """the vector as a concatenation of ranges, with overwritten single positions split off"""
    if t.op == "concat":
        out = []
        for x in t.args:
            out += segments(x)
        r = concat(*out)
        return list(r.args) if r.op == "concat" else [r]
    if t.op == "upd" and t.args[0].op == "seq":
        j, (dm, g, e) = open_(t.args[0])
        k = t.args[1]
        if g is TRUE and dm.args and dm.args[0] is ZERO:
            n = dm.args[1]
            j2 = fresh()
            parts = [seq(j, dom(ZERO, k), TRUE, e)] if k is not ZERO else []
            parts.append(mk("list", t.args[2]))
            rest = sub(sub(n, k), ONE)
            if rest is not ZERO:
                parts.append(seq(j2, dom(ZERO, rest), TRUE, open_(t.args[0], add(j2, add(k, ONE)))[1][2]))
            return parts
    return [t]


def surely_nonneg(p):
    """an index expression (a polynomial of unsigned quantities) that cannot be negative"""
    q = as_poly(p)
    if all(c >= 0 for c in q.values()):
        return True
    # a quotient of unsigned quantities is at most the fraction
    for m, c in q.items():
        if c < 0 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == "idiv":
            x, y = m[0][0].args[:2]
            k = as_poly(y).get((), 0)
            if as_poly(y) == {(): k} and k >= 1 and surely_nonneg(x):
                return surely_nonneg(sub(add(p, mul(num(-c), m[0][0])), mul(num(-c / k), x)))
    return False


def pieces(t):
    """the vector as consecutive pieces (length, value at an offset, source); None when it cannot be cut"""
    if t.op == "seq":
        _, (dm, g, _) = open_(t)
        if g is TRUE and dm.op == "dom" and dm.args and dm.args[0] is ZERO:
            return [(dm.args[1], lambda k: open_(t, k)[1][2], None)]
    if t.op == "list":
        return [(ONE, (lambda k, x=x: x), None) for x in t.args]
    if t.op == "concat":
        out = []
        for x in t.args:
            out += pieces(x)
        return out
    if t.op in ("upd", "setslice"):
        base = pieces(t.args[0])
        n = length(t.args[0])
        lo, hi = (t.args[1], add(t.args[1], ONE)) if t.op == "upd" else (t.args[1], t.args[2])
        a = cut(base, ZERO, lo)
        z = cut(base, hi, n)
        if a is not None and z is not None:
            return a + ([(ONE, (lambda k, x=t.args[2]: x), None)] if t.op == "upd" else pieces(t.args[3])) + z
    if t.op == "slice":
        r = cut(pieces(t.args[0]), t.args[1], t.args[2])
        if r is not None:
            return r
    return [(length(t), lambda k: at(t, k), t)]


def cut(ps, lo, hi):
    """the pieces of positions lo..hi, None when the position of a boundary is unknown"""
    if lo is hi:
        return []
    out, off = [], ZERO
    for n, f, src in ps:
        end = add(off, n)
        # the part before lo
        if surely_nonneg(sub(lo, end)):
            off = end
            continue
        if surely_nonneg(sub(off, hi)):
            break
        s = lo if surely_nonneg(sub(lo, off)) else off if surely_nonneg(sub(off, lo)) else None
        e = end if surely_nonneg(sub(hi, end)) else hi if surely_nonneg(sub(end, hi)) else None
        if s is None or e is None:
            return None
        if s is off and e is end:
            out.append((n, f, src))
        else:
            out.append((sub(e, s), (lambda k, f=f, d=sub(s, off): f(add(k, d))), None))
        off = end
    return out


def integral(v, i):
    """conditions on the position: [p = 0] = [p + 1 > 0] - [p > 0] for integers"""
    if not isinstance(v, T):
        return v
    m = {}
    for c in contains(v, lambda x: x.op == "zero" and isinstance(x.args[0], T) and i in fvs(x.args[0])):
        p = c.args[0]
        for q in (p, neg(p)):
            if pos(q) in subterms(v) and all(k.denominator == 1 and all(e == 1 and (a is i or a.op in ("idiv", "len", "idx")) for a, e in mm) for mm, k in as_poly(q).items()):
                m[c] = sub(pos(add(q, ONE), True), pos(q, True))
                m[pos(q)] = pos(q, True)
                break
    return subst(v, m) if m else v


def breakpoints(f, n):
    """positions inside 0..n at which a condition of the element expression changes"""
    i = fresh()
    v = f(i)
    out = set()
    if not isinstance(v, T):
        return []
    for c in contains(v, lambda x: x.op in ("pos", "zero") and isinstance(x.args[0], T) and i in fvs(x.args[0])):
        q = as_poly(c.args[0])
        ms = [(m, k) for m, k in q.items() if any(a is i for a, _ in m)]
        if len(ms) != 1 or len(ms[0][0]) != 1 or ms[0][0][0][1] != 1 or abs(ms[0][1]) != 1:
            continue
        k = subst(c.args[0], {i: ZERO})
        k = k if ms[0][1] == -1 else neg(k)
        out |= {k, add(k, ONE)}
    return [k for k in out if k is not ZERO and k is not n and surely_nonneg(k) and surely_nonneg(sub(n, k))]


def bounded(v, i, n):
    """conditions of v decided for 0 <= i < n"""
    m = {}
    for c in contains(v, lambda x: x.op in ("pos", "zero") and i in fvs(x)):
        p = c.args[0]
        q = as_poly(p)
        ms = [(mm, k) for mm, k in q.items() if any(a is i for a, _ in mm)]
        if len(ms) != 1 or len(ms[0][0]) != 1 or ms[0][0][0][1] != 1 or abs(ms[0][1]) != 1:
            continue
        first, last = subst(p, {i: ZERO}), subst(p, {i: sub(n, ONE)})
        lo, hi = (first, last) if ms[0][1] == 1 else (last, first)
        if surely_nonneg(sub(lo, ONE)):
            m[c] = TRUE if c.op == "pos" else FALSE
        elif surely_nonneg(sub(neg(hi), ONE)) or c.op == "pos" and surely_nonneg(neg(hi)):
            m[c] = FALSE
    return subst(v, m) if m else v


def refined(ps):
    """pieces whose elements depend on where they lie, cut at those positions"""
    out = []
    for n, f, src in ps:
        if n is ONE or src is not None:
            out.append((n, f, src))
            continue
        i0 = fresh()
        v0 = f(i0)
        v1 = integral(v0, i0)
        if v1 is not v0:
            f = lambda k, v1=v1, i0=i0: subst(v1, {i0: k})
        ks = breakpoints(f, n)
        if not ks or len(ks) > 6:
            out.append((n, f, src))
            continue
        # order the positions
        order = [ZERO]
        rest = list(ks)
        while rest:
            nxt = [k for k in rest if all(surely_nonneg(sub(o, k)) for o in rest)]
            if not nxt:
                break
            order.append(nxt[0])
            rest.remove(nxt[0])
        if rest:
            out.append((n, f, src))
            continue
        order.append(n)
        for a, b in zip(order, order[1:]):
            w = sub(b, a)
            if w is not ZERO:
                out.append((w, (lambda k, f=f, a=a, w=w: bounded(f(add(k, a)), k, w) if k.op == "idx" else f(add(k, a))), None))
    return out


def merged(ps, d):
    """neighbouring pieces which one expression describes, joined"""
    out = []
    for n, f, src in ps:
        if n is ZERO:
            continue
        while out:
            n1, f1, s1 = out[-1]
            i = ZERO if n is ONE else fresh()
            j = ZERO if n1 is ONE else fresh()
            if equal(f1(add(n1, i)), f(i), d + 1):
                n, f, src = add(n1, n), f1, None
            elif n is not ONE and equal(f(sub(j, n1)), f1(j), d + 1):
                n, f, src = add(n1, n), (lambda k, f=f, n1=n1: f(sub(k, n1))), None
            else:
                break
            out.pop()
        out.append((n, f, src))
    return out


def piecewise_eq(a, b, d=0):
    x, y = refined(pieces(a)), refined(pieces(b))
    if _piecewise(x, y, d):
        return True
    return d < 8 and len(x) < 12 and len(y) < 12 and _piecewise(merged(x, d), merged(y, d), d)


def _piecewise(x, y, d):
    for _ in range(200):
        x = [p for p in x if p[0] is not ZERO]
        y = [p for p in y if p[0] is not ZERO]
        if not x or not y:
            return not x and not y
        (n, f, s), (m, g, u) = x[0], y[0]
        diff = sub(n, m)
        if diff is ZERO or together(diff) is ZERO:
            if s is not None and u is not None:
                if not equal(s, u, d + 1):
                    return False
            else:
                i = ZERO if n is ONE or m is ONE else fresh()
                if not equal(f(i), g(i), d + 1):
                    return False
            x, y = x[1:], y[1:]
        elif surely_nonneg(diff):
            i = ZERO if n is ONE or m is ONE else fresh()
            if not equal(f(i), g(i), d + 1):
                return False
            x, y = [(diff, (lambda k, f=f, m=m: f(add(k, m))), None)] + x[1:], y[1:]
        elif surely_nonneg(sub(m, n)):
            i = ZERO if n is ONE or m is ONE else fresh()
            if not equal(f(i), g(i), d + 1):
                return False
            x, y = x[1:], [(sub(m, n), (lambda k, g=g, n=n: g(add(k, n))), None)] + y[1:]
        else:
            return False
    return False


def _eqany(x, y, d):
    if isinstance(x, T) and isinstance(y, T):
        return equal(x, y, d)
    if isinstance(x, tuple) and isinstance(y, tuple):
        return len(x) == len(y) and all(_eqany(p, q, d) for p, q in zip(x, y))
    return x == y


def group(cs, d):
    out = []
    for g, v in cs:
        for k, (v2, g2) in enumerate(out):
            if equal(v, v2, d):
                out[k] = (v2, add(g2, g))
                break
        else:
            out.append((v, g))
    return out


def scalar_eq(a, b, depth=0):
    if a is b:
        return True
    if depth > 60:
        return False
    diff = together(sub(a, b))
    if diff is ZERO:
        return True
    # atoms that are equal but not identical (nested compound denominators etc.)
    pa, pb = as_poly(a), as_poly(b)
    atoms = set()
    for p in (pa, pb):
        for m in p:
            for x, _ in m:
                atoms.add(x)
    atoms = sorted(atoms, key=lambda t: t.id)
    if len(atoms) > 60:
        return False
    rep = {}
    for n, x in enumerate(atoms):
        for y in atoms[:n]:
            if y not in rep and x.op == y.op and x.args and x.op not in ("sym", "idx", "bv") and equal(x, y, depth + 5):
                rep[x] = y
                break
    if rep:
        diff = together(sub(_rep(a, rep), _rep(b, rep)))
        if diff is ZERO:
            return True
    d2 = minmax(diff)
    d2 = vanish(d2)
    return d2 is ZERO


def is_count(q):
    """a number of elements: nonnegative integer"""
    if q.op == "len":
        return True
    if q.op == "sum":
        return is_bool(open_(q)[1][2]) if len(open_(q)[1]) > 2 else is_bool(open_(q)[1][-1])
    d = as_poly(q)
    if len(d) == 2:
        pos_ = [m for m, c in d.items() if c == 1]
        neg_ = [m for m, c in d.items() if c == -1]
        if len(pos_) == len(neg_) == 1 and len(neg_[0]) == 1 and neg_[0][0][0].op == "sum":
            sm = neg_[0][0][0]
            parts = open_(sm)[1]
            return is_bool(parts[-1]) and parts[0].op == "dom" and bool(parts[0].args) and parts[0].args[0] is ZERO and parts[0].args[1] is from_poly({pos_[0]: Fraction(1)})
    return False


def minmax(t):
    """min and max as case distinctions (top level of a polynomial); [count = 0] = 1 − [count > 0]"""
    m = {}
    for mono in as_poly(t):
        for x, _ in mono:
            if x.op == "zero" and is_count(x.args[0]):
                m[x] = not_(pos(x.args[0], True))
    for mono in as_poly(t):
        for x, _ in mono:
            if x.op in ("min", "max") and len(x.args) == 2:
                p, q = x.args
                g = lt(p, q)
                m[x] = add(mul(g, p), mul(not_(g), q)) if x.op == "min" else add(mul(g, q), mul(not_(g), p))
    return _rep(t, m) if m else t


def vanish(t):
    """drop p·[p = 0]"""
    zs = {x for mono in as_poly(t) for x, _ in mono if x.op == "zero"}
    for z in zs:
        d = as_poly(t)
        co = from_poly({tuple(y for y in mono if y[0] is not z): c for mono, c in d.items() if any(x is z for x, _ in mono)})
        q = z.args[0]
        qp = as_poly(q)
        lin = [(mono, c) for mono, c in qp.items() if len(mono) == 1 and mono[0][1] == 1]
        for mono, c in lin:
            x = mono[0][0]
            rest = sub(q, mul(num(c), x))
            if contains(rest, lambda y: y is x):
                continue
            if together(_rep(co, {x: mul(num(-1 / Fraction(c)), rest)})) is ZERO:
                t = from_poly({mono: c for mono, c in d.items() if not any(y is z for y, _ in mono)})
                break
    return together(t)


def _rep(t, rep):
    acc = ZERO
    for m, c in as_poly(t).items():
        v = num(c)
        for x, p in m:
            v = mul(v, power(rep.get(x, x), p))
        acc = add(acc, v)
    return acc


# --------------------------------------------------------------- spec helpers
SELF = mk("sym", "self")


def sym(n, numeric=False):
    t = mk("sym", n)
    return mark_num(t) if numeric else t


def F(base, *path):
    for p in path:
        base = proj(base, p)
    return base


def NF(base, *path):
    return mark_num(F(base, *path))


def A(x, i):
    return mark_num(at(x, i))


def SUM(n, f):
    i = fresh()
    return sum_(i, dom(ZERO, n), f(i))


def SEQ(n, f, guard=None):
    i = fresh()
    return seq(i, dom(ZERO, n), guard(i) if guard else TRUE, f(i))


def half():
    return num(Fraction(1, 2))


def guards(t, pred):
    """total guard of the cases of t whose value satisfies pred"""
    g = FALSE
    for c, v in cases(t):
        if pred(v):
            g = add(g, c)
    return g


def is_break(v):
    return v.op == "variant" and v.args[1] == "Break"


def payload(v, k="0"):
    return dict(v.args[2])[k]


def diff(a, b, depth=0):
    """smallest differing subterms, for reports"""
    if a is b or depth > 40:
        return None
    if not isinstance(a, T) or not isinstance(b, T):
        return None if a == b else (a, b)
    if equal(a, b):
        return None
    if a.op in BINDERS and b.op == a.op and len(a.args) == len(b.args):
        i = mk("sym", "i")
        x, y = open_(a, i)[1], open_(b, i)[1]
        for p, q in zip(x, y):
            d = diff(p, q, depth + 1)
            if d:
                return d
        return (a, b)
    if a.op == "ite" and b.op == "ite":
        ca, cb = cases(a), cases(b)
        if len(ca) == len(cb):
            for (g, v), (g2, v2) in zip(ca, cb):
                d = diff(v, v2, depth + 1)
                if d:
                    return d
            for (g, v), (g2, v2) in zip(ca, cb):
                d = diff(g, g2, depth + 1)
                if d:
                    return d
        return (a, b)
    if a.op == "poly" and b.op == "poly":
        xa = {x for m in as_poly(a) for x, _ in m}
        xb = {x for m in as_poly(b) for x, _ in m}
        oa, ob = list(xa - xb), list(xb - xa)
        if len(oa) == 1 and len(ob) == 1 and oa[0].op == ob[0].op:
            return diff(oa[0], ob[0], depth + 1) or (a, b)
        return (a, b)
    if a.op != b.op or len(a.args) != len(b.args) or not a.args:
        return (a, b)
    for x, y in zip(a.args, b.args):
        if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
            for p, q in zip(x, y):
                if isinstance(p, tuple) and isinstance(q, tuple):
                    for p2, q2 in zip(p, q):
                        d = diff(p2, q2, depth + 1)
                        if d:
                            return d
                    continue
                d = diff(p, q, depth + 1)
                if d:
                    return d
        else:
            d = diff(x, y, depth + 1)
            if d:
                return d
    return (a, b)


def find_loop(r, ev):
    """innermost loop an event happens in"""
    if not ev.loops:
        return None
    uid = ev.loops[-1][2]
    for l in r.loops:
        if l["uid"] == uid:
            return l
    return None


def close_counters(l, t):
    """replace loop counters (x += c every iteration) by their value in iteration idx"""
    m = {}
    for k, mu in l["mu"].items():
        pre, post = l["pre"][k], l["post"][k]
        if not isinstance(post, T):
            continue
        d = sub(post, mu) if numericish(post) or numericish(mu) else None
        if d is not None and d is not ZERO and (is_num(d) or not contains(d, lambda x: x is l["idx"] or x.op == "loopvar")):
            m[mu] = add(pre, mul(d, l["idx"]))
    return subst(t, m) if m else t


def open_mus(l):
    """loop-carried places that are not plain counters"""
    out = []
    for k, mu in l["mu"].items():
        c = close_counters(l, mu)
        if c is mu and l["post"][k] is not mu:
            out.append(k)
    return out


def fold_spec(ctx, key, b, l, domain, pre, post, brk, what, env=None):
    """a loop with one accumulator: start value, value after iteration i, and (condition, value) of
    the early exit, as functions of the accumulator and i.  Other shapes are left undecided."""
    if l is None:
        return ctx.undecided(key, b, f"{what}: no loop recognised")
    ks = open_mus(l)
    nb = 1 if brk else 0
    if len(ks) != 1 or len(l["brk"]) != nb or l["while"]:
        return ctx.undecided(key, b, f"{what}: the loop has another shape ({len(ks)} accumulators, {len(l['brk'])} exits)")
    k = ks[0]
    mu, i = l["mu"][k], l["idx"]
    mark_num(mu)
    cl = lambda t: close_counters(l, t)
    ctx.same(key + ".domain", l["dom"], domain, b, what + ": range of the loop", env)
    ctx.same(key + ".start", l["pre"][k], pre, b, what + ": initial value", env)
    ctx.same(key + ".step", cl(l["post"][k]), post(mu, i), b, what + ": one step", env)
    if brk:
        c, v = brk(mu, i)
        ctx.same(key + ".exit-when", cl(l["brk"][0][0]), c, b, what + ": exit condition", env)
        ctx.same(key + ".exit-value", cl(l["brk"][0][2][k]), v, b, what + ": value on exit", env)


def loop_spec(ctx, key, b, r, domain, roles, what, env=None, brk=None, subst_=None):
    """a loop with several accumulators whose values are not closed forms: `roles` maps a name to
    (initial value, function of (accumulators by name, iteration) giving the next value).  The
    accumulators of the code are assigned to the roles; a loop with another number of accumulators is
    left undecided, one for which no assignment satisfies the recurrence breaks the property."""
    import itertools
    names = list(roles)
    g = lambda t: canon(t, env) if env else t
    cand = []
    for l in r.loops:
        op = accumulators(l)
        if len(op) == len(names) and not l["while"] and len(l["brk"]) == (1 if brk else 0) and not l["rets"]:
            cand.append((l, op))
    if not cand:
        gone = dropped_role(r, domain, roles, g)
        if gone:
            ctx.ob(f"{key}.{gone}", False, b, f"{what}: the loop never updates the {gone}")
            return None
        return ctx.undecided(key, b, f"{what}: no loop with {len(names)} accumulators")
    best = None
    for l, op in cand:
        i = l["idx"]
        for k in op:
            mark_num(l["mu"][k])
        cl = lambda t: subst(t, l["closed"]) if l["closed"] else t
        post = {k: cl(l["post"][k]) for k in op}
        for perm in itertools.permutations(op):
            asg = dict(zip(names, perm))
            mu = {n: l["mu"][k] for n, k in asg.items()}
            res = [("range", l["dom"], domain)]
            for n, k in asg.items():
                p0, nx = roles[n]
                res.append((n + " start", l["pre"][k], p0))
                res.append((n + " step", post[k], nx(mu, i)))
            if brk:
                c, vals = brk(mu, i)
                res.append(("exit-when", cl(l["brk"][0][0]), c))
            bad = [(a, x, y) for a, x, y in res if not any(equal(g(x), g(z)) for z in (y if isinstance(y, list) else [y]))]
            if best is None or len(bad) < len(best[0]):
                best = (bad, l, asg)
            if not bad:
                break
        if not best[0]:
            break
    bad, l, asg = best
    for n in ["range"] + names:
        hit = [(a, x, y) for a, x, y in bad if a.split()[0] == n]
        if hit:
            a, x, y = hit[0]
            ys = y if isinstance(y, list) else [y]
            y = ys[0]
            un = unresolved(g(x)) - set().union(*[unresolved(g(z)) for z in ys])
            un = {u for u in un if not any(u is m for m in l["mu"].values())}
            if un:
                ctx.undecided(f"{key}.{n}", b, f"{what}, {a}: unresolved {clip(next(iter(un)), 200)}")
                continue
            d = diff(g(x), g(y)) or (x, y)
            ctx.ob(f"{key}.{n}", False, b, f"{what}, {a}: the code computes {clip(d[0], 400)} where the property requires {clip(d[1], 400)}")
        else:
            ctx.ob(f"{key}.{n}", True, b, what)
    return best if not bad else None


def accumulators(l):
    """loop-carried places without closed form whose previous value is read somewhere in the loop"""
    return [k for k in l.get("open", []) if l["post"][k] is not l["mu"][k] and isinstance(l["post"][k], T)
            and any(isinstance(x, T) and contains(x, lambda y: y is l["mu"][k]) for x in l["post"].values())]


def dropped_role(r, domain, roles, g):
    """a loop that is the specified one except that one accumulator keeps its initial value"""
    import itertools
    names = list(roles)
    for l in r.loops:
        op = accumulators(l)
        if len(op) != len(names) - 1 or l["while"] or l["brk"] or l["rets"] or not equal(g(l["dom"]), g(domain)):
            continue
        i = l["idx"]
        for k in op:
            mark_num(l["mu"][k])
        cl = lambda t: subst(t, l["closed"]) if l["closed"] else t
        for gone in names:
            rest = [n for n in names if n != gone]
            starts = roles[gone][0]
            for st in starts if isinstance(starts, list) else [starts]:
                for perm in itertools.permutations(op):
                    mu = {n: l["mu"][k] for n, k in zip(rest, perm)} | {gone: st}
                    ok = True
                    for n, k in zip(rest, perm):
                        w = roles[n][1](mu, i)
                        p = roles[n][0]
                        if not any(equal(g(l["pre"][k]), g(z)) for z in (p if isinstance(p, list) else [p])) or \
                                not any(equal(g(cl(l["post"][k])), g(z)) for z in (w if isinstance(w, list) else [w])):
                            ok = False
                            break
                    if ok:
                        return gone
    return None


def strip_havoc(t):
    """the object underneath a chain of opaque mutations"""
    while t.op in ("havoc",):
        t = t.args[2]
    return t


def mentions(t, sub_):
    return bool(contains(t, lambda x: x is sub_))
