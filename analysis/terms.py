"""Hash-consed value-graph nodes with an algebraic normal form.

Scalars (numbers *and* booleans) are kept as polynomials with rational
coefficients over opaque atoms; a boolean is a 0/1 polynomial whose atoms are
comparison indicators, so `if`, `match`, `&&`, filters and guards all live in
the same canonical representation.  Sequences are `seq` binders (one generic
element), reductions are `sum`/`prod`/... binders.  Bound variables are named
by binder height, so alpha-equivalent terms are the same Python object.
"""
from fractions import Fraction
import sys
sys.setrecursionlimit(200000)

_tab = {}
_n = [0]


class T:
    __slots__ = ("op", "args", "id", "_fv", "_h", "_sz")

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


def mk(op, *args):
    k = (op, args)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op, t.args = op, args
        _n[0] += 1
        t.id = _n[0]
        t._fv = t._h = t._sz = None
        _tab[k] = t
    return t


_fresh = [0]


def fresh(prefix="i"):
    _fresh[0] += 1
    return mk("idx", prefix, _fresh[0])


BINDERS = {"seq", "sum", "prod", "maxof", "minof", "argbest", "any", "all", "loop", "lam", "prefix", "find", "group", "flat", "tally"}


def kids(t):
    if t.op == "poly":
        for m, c in t.args:
            for a, p in m:
                yield a
    else:
        for a in t.args:
            if isinstance(a, T):
                yield a
            elif isinstance(a, tuple):
                yield from _ktuple(a)


def _ktuple(a):
    for x in a:
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            yield from _ktuple(x)


def fvs(t):
    """free idx / bv variables"""
    if t._fv is None:
        if t.op in ("idx", "bv"):
            t._fv = frozenset([t])
        else:
            s = frozenset()
            for k in kids(t):
                f = fvs(k)
                if f:
                    s = s | f if s else f
            if t.op in BINDERS:
                s = s - {t.args[0]}
            t._fv = s
    return t._fv


def height(t):
    if t._h is None:
        h = 0
        for k in kids(t):
            h = max(h, height(k))
        if t.op in BINDERS:
            h = max(h, t.args[0].args[0])
        t._h = h
    return t._h


def size(t):
    if t._sz is None:
        t._sz = 1 + sum(size(k) for k in kids(t))
    return t._sz


def bind(op, idx, *bodies):
    """close the bodies over idx and build binder `op`"""
    h = 0
    for b in bodies:
        for x in _ktuple((b,)):
            h = max(h, height(x))
    bv = mk("bv", h + 1)
    new = tuple(_sub_any(b, {idx: bv}) for b in bodies)
    return mk(op, bv, *new)


def open_(t, with_=None):
    """bodies of binder t with the bound variable replaced"""
    idx = with_ if with_ is not None else fresh()
    m = {t.args[0]: idx}
    return idx, tuple(_sub_any(b, m) for b in t.args[1:])


def _sub_any(x, m):
    if isinstance(x, T):
        return subst(x, m)
    if isinstance(x, tuple):
        return tuple(_sub_any(y, m) for y in x)
    return x


def subst(t, m, _memo=None):
    """capture-free substitution; m maps (atom) terms to terms"""
    if _memo is None:
        _memo = {}
        keyfv = all(k.op in ("idx", "bv") for k in m)
        _memo["fvonly"] = keyfv
    r = _memo.get(t)
    if r is not None:
        return r
    if t in m:
        r = m[t]
    elif _memo["fvonly"] and not any(k in fvs(t) for k in m):
        r = t
    elif t.op == "poly":
        r = _from_poly_sub(t, m, _memo)
    elif t.op in BINDERS:
        if t.args[0] in m:
            m2 = {k: v for k, v in m.items() if k is not t.args[0]}
            r = subst(t, m2) if m2 else t
        else:
            i, bodies = open_(t)
            m1 = dict(m)
            bodies2 = tuple(_sub_any(b, m1) for b in bodies)
            r = rebind(t.op, i, *bodies2)
    elif not t.args:
        r = t
    else:
        new = tuple(_subm(x, m, _memo) for x in t.args)
        r = t if new == t.args else rebuild(t.op, new)
    _memo[t] = r
    return r


def conjuncts(c):
    """the conditions whose conjunction is c"""
    if c.op != "poly":
        return [c]
    if len(c.args) == 1 and c.args[0][1] == 1 and all(k == 1 for _, k in c.args[0][0]):
        return [x for x, _ in c.args[0][0]]
    return []


def rewrite(t, f, _memo=None):
    """bottom-up rewriting: f is applied to every rebuilt node, inside binders with the bound
    variable opened"""
    if _memo is None:
        _memo = {}
    r = _memo.get(t)
    if r is not None:
        return r
    if t.op == "poly":
        r = ZERO
        for mono, c in t.args:
            v = num(c)
            for a, p in mono:
                v = mul(v, power(rewrite(a, f, _memo), p))
            r = add(r, v)
    elif t.op in BINDERS:
        i, bodies = open_(t)
        r = rebind(t.op, i, *[_rewm(b, f, {}) for b in bodies])
    elif t.args:
        new = tuple(_rewm(x, f, _memo) for x in t.args)
        r = t if new == t.args else rebuild(t.op, new)
        if r is not t and t in NUMTY:
            mark_num(r, NUMTY[t])
    else:
        r = t
    r = f(r)
    _memo[t] = r
    return r


def _rewm(x, f, memo):
    if isinstance(x, T):
        return rewrite(x, f, memo)
    if isinstance(x, tuple):
        return tuple(_rewm(y, f, memo) for y in x)
    return x


def _subm(x, m, memo):
    if isinstance(x, T):
        return subst(x, m, memo)
    if isinstance(x, tuple):
        return tuple(_subm(y, m, memo) for y in x)
    return x


def _from_poly_sub(t, m, memo):
    acc = ZERO
    for mono, c in t.args:
        v = num(c)
        for a, p in mono:
            v = mul(v, power(subst(a, m, memo), p))
        acc = add(acc, v)
    return acc


REBUILD = {}


def rebuild(op, args):
    f = REBUILD.get(op)
    if f:
        return f(*args)
    return mk(op, *args)


def rebind(op, i, *bodies):
    if op == "sum":
        return sum_(i, bodies[0], bodies[1])
    return bind(op, i, *bodies)


# ---------------------------------------------------------------- polynomials
def num(x):
    if isinstance(x, float):
        x = Fraction(str(x))
    x = Fraction(x)
    if x == 0:
        return mk("poly")
    return mk("poly", ((), x))


ZERO = mk("poly")
ONE = mk("poly", ((), Fraction(1)))
TRUE, FALSE = ONE, ZERO


def is_num(t):
    return t.op == "poly" and (not t.args or (len(t.args) == 1 and t.args[0][0] == ()))


def numval(t):
    return t.args[0][1] if t.args else Fraction(0)


def as_poly(t):
    """dict mono->coeff"""
    if t.op == "poly":
        return dict(t.args)
    return {((t, Fraction(1)),): Fraction(1)}


def from_poly(d):
    items = [(m, c) for m, c in d.items() if c != 0]
    if len(items) == 1 and items[0][1] == 1 and len(items[0][0]) == 1 and items[0][0][0][1] == 1:
        return items[0][0][0][0]
    items.sort(key=lambda mc: (len(mc[0]), [(a.id, p) for a, p in mc[0]]))
    return mk("poly", *items)


def add(*ts):
    d = {}
    for t in ts:
        for m, c in as_poly(t).items():
            d[m] = d.get(m, 0) + c
    return from_poly(d)


INDIC = {"pos", "zero", "is", "bool", "any", "all"}


def is_indicator(a):
    return a.op in INDIC


def _mulmono(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, p in m2:
        d[a] = d.get(a, 0) + p
    out = []
    for a, p in d.items():
        if p == 0:
            continue
        if is_indicator(a) and p > 0:
            p = Fraction(1)
        out.append((a, p))
    out.sort(key=lambda ap: ap[0].id)
    # mutually exclusive indicators: pos(p)*zero(p) == 0
    s = {a for a, _ in out}
    for a in s:
        if a.op == "pos" and mk("zero", a.args[0]) in s:
            return None
        if a.op == "is":
            for b in s:
                if b is not a and b.op == "is" and b.args[0] is a.args[0] and b.args[1] != a.args[1]:
                    return None
    # powers of the same exponential are merged by exp_()
    return tuple(out)


def mul(*ts):
    acc = {(): Fraction(1)}
    for t in ts:
        p = as_poly(t)
        new = {}
        for m1, c1 in acc.items():
            for m2, c2 in p.items():
                m = _mulmono(m1, m2)
                if m is None:
                    continue
                new[m] = new.get(m, 0) + c1 * c2
        acc = new
        if len(acc) > 4000:
            return mk("big", *ts)
    # an atom raised to power p that is itself a poly (denominators) stays atomic
    return from_poly(acc)


def neg(t):
    return mul(num(-1), t)


def sub(a, b):
    return add(a, neg(b))


def content(t):
    """(scalar, primitive poly) with leading coefficient +1"""
    lead = t.args[0][1]
    return lead, from_poly({m: c / lead for m, c in t.args})


def power(t, p):
    p = Fraction(p)
    if p == 1:
        return t
    if p == 0:
        return ONE
    if t.op != "poly":
        if is_indicator(t) and p > 0:
            return t
        return mk("poly", (((t, p),), Fraction(1)))
    if is_num(t):
        v = numval(t)
        if v == 0:
            return ZERO if p > 0 else mk("poly", (((mk("div0"), Fraction(1)),), Fraction(1)))
        if p.denominator == 1:
            return num(v ** int(p))
        if v == 1:
            return ONE
        return mk("poly", (((mk("const", v), p),), Fraction(1)))
    if len(t.args) == 1:  # single monomial
        m, c = t.args[0]
        r = power(num(c), p) if c != 1 else ONE
        for a, q in m:
            if is_indicator(a) and q * p > 0:
                r = mul(r, a)
            else:
                r = mul(r, mk("poly", (((a, q * p),), Fraction(1))))
        return r
    if p.denominator == 1 and 0 < p <= 4:
        r = ONE
        for _ in range(int(p)):
            r = mul(r, t)
        return r
    c, prim = content(t)
    if prim.op != "poly":
        base = power(prim, p)
    else:
        base = mk("poly", (((prim, p),), Fraction(1)))
    if c == 1:
        return base
    if p.denominator == 1:
        return mul(num(c ** int(p)), base)
    if c > 0:
        return mul(power(num(c), p), base)
    return mk("poly", (((t, p),), Fraction(1)))


def div(a, b):
    return mul(a, power(b, -1))


def _denoms(t, acc):
    for m, c in as_poly(t).items():
        for a, p in m:
            if p < 0 and a.op == "poly":
                acc[a] = max(acc.get(a, 0), -p)


def together(t):
    """multiply out composite denominators: numerator polynomial whose vanishing
    is equivalent to t == 0"""
    for _ in range(8):
        d = {}
        _denoms(t, d)
        if not d:
            return t
        acc = ZERO
        for m, c in as_poly(t).items():
            v = num(c)
            have = {a: p for a, p in m}
            for a, p in m:
                if a not in d:
                    v = mul(v, power(a, p))
            for a, q in d.items():
                e = have.get(a, Fraction(0)) + q
                if e:
                    v = mul(v, power(a, e))
            acc = add(acc, v)
        t = acc
    return t


def eq(a, b):
    """are the two scalar terms equal in the normal form?"""
    if a is b:
        return True
    if a.op in ("tuple",) and b.op == "tuple" and len(a.args) == len(b.args):
        return all(eq(x, y) for x, y in zip(a.args, b.args))
    if a.op == "struct" and b.op == "struct" and a.args[0] == b.args[0]:
        da, db = dict(a.args[1]), dict(b.args[1])
        return set(da) == set(db) and all(eq(da[k], db[k]) for k in da)
    if a.op == "seq" and b.op == "seq":
        i = fresh()
        _, (d1, g1, e1) = open_(a, i)
        _, (d2, g2, e2) = open_(b, i)
        return d1 is d2 and eq(g1, g2) and eq(e1, e2)
    d = together(sub(a, b))
    return d is ZERO


# ------------------------------------------------------------------ booleans
def not_(b):
    return sub(ONE, b)


def and_(*bs):
    return mul(*bs)


def or_(a, b):
    return sub(add(a, b), mul(a, b))


def _canon_sign(p):
    lead = p.args[0][1] if p.op == "poly" else Fraction(1)
    return lead


def intlike(p):
    """a polynomial of positions and lengths with whole coefficients"""
    if p.op != "poly":
        return p.op in ("idx", "bv", "len", "idiv")
    return not is_num(p) and all(c.denominator == 1 and all(x.op in ("idx", "bv", "len", "idiv") and k > 0 for x, k in m) for m, c in p.args)


def pos(p, integer=False):
    """[p > 0]"""
    integer = integer or intlike(p)
    if p.op == "poly":
        if is_num(p):
            return TRUE if numval(p) > 0 else FALSE
        r = None if integer else _pos_abs(p)
        if r is not None:
            return r
        # leading coeff of the first non-constant monomial
        lead = next(c for m, c in p.args if m != ())
        if all(c > 0 if m == () else c >= 0 and all(x.op == "len" for x, _ in m) for m, c in p.args) and dict(p.args).get((), 0) > 0:
            return TRUE
        if not integer:
            scale = abs(lead)
            p = from_poly({m: c / scale for m, c in p.args})
        if lead < 0:
            q = neg(p)
            if integer:
                return not_(_pos_i(add(q, ONE)))
            return sub(sub(ONE, mk("pos", q)), zero(q))
        if integer:
            return _pos_i(p)
    if integer and p.op != "poly":
        return mk("pos", p)
    return mk("pos", p)


def _pos_abs(p):
    """[c·|x| + d > 0] for numbers c, d as a statement about x"""
    if len(p.args) != 2:
        return None
    mono = [(m, c) for m, c in p.args if m != ()]
    if len(mono) != 1 or len(mono[0][0]) != 1 or mono[0][0][0][0].op != "abs" or mono[0][0][0][1] != 1:
        return None
    c, d, x = mono[0][1], dict(p.args)[()], mono[0][0][0][0].args[0]
    if c > 0 and d < 0:
        return add(pos(add(mul(num(c), x), num(d))), pos(add(mul(num(-c), x), num(d))))
    if c < 0 and d > 0:
        return mul(pos(add(mul(num(c), x), num(d))), pos(add(mul(num(-c), x), num(d))))
    return None


def _pos_i(p):
    if p.op == "poly" and is_num(p):
        return TRUE if numval(p) > 0 else FALSE
    return mk("pos", p)


def _zero_find(p):
    """[hi - (any·find + (1-any)·hi) == 0] = not any: a found position is below the upper bound"""
    if p.op != "poly":
        return None
    fs = [x for x in p.args if any(y.op == "find" for y, _ in x[0])]
    if len(fs) != 1 or len(p.args) != 2:
        return None
    (m1, c1), (m2, c2) = fs[0], next(x for x in p.args if x is not fs[0])
    f = [x for x, _ in m1 if x.op == "find"][0]
    _, (d, g) = open_(f)
    if not d.args or c1 != -c2:
        return None
    a = from_poly({tuple(x for x in m1 if x[0] is not f): Fraction(1)})
    hi = d.args[1]
    if from_poly({m2: Fraction(1)}) is mul(a, hi) and is_bool(a):
        return not_(a)
    return None


def zero(p):
    """[p == 0]"""
    if p.op == "poly":
        if is_num(p):
            return TRUE if numval(p) == 0 else FALSE
        # a 0/1 indicator combination?
        lead = next(c for m, c in p.args if m != ())
        p = from_poly({m: c / lead for m, c in p.args})
        r = _zero_find(p)
        if r is not None:
            return r
    if is_indicator(p):
        return not_(p)
    return mk("zero", p)


def lt(a, b, integer=False):
    return pos(sub(b, a), integer)


def le(a, b, integer=False):
    if integer:
        return pos(add(sub(b, a), ONE), True)
    return not_(lt(b, a))


def eqb(a, b):
    """boolean term [a == b] for scalars"""
    if a is b:
        return TRUE
    if a.op == "discr" and b.op == "discr":
        x, y = a.args[0], b.args[0]
        for x, y in ((x, y), (y, x)):
            if y.op == "variant":
                return is_variant(x, y.args[1])
        if x is y:
            return TRUE
    elif _is_scalar(a) and _is_scalar(b):
        return zero(sub(a, b))
    if a.op in ("str", "variant0") and b.op == a.op:
        return FALSE
    x, y = sorted([a, b], key=lambda t: t.id)
    return mk("bool", "eq", x, y)


def _is_scalar(t):
    return t.op not in ("discr", "struct", "tuple", "variant", "str", "seq", "list", "concat", "clo", "place", "iter")


def is_bool(t):
    if t is TRUE or t is FALSE:
        return True
    if is_indicator(t):
        return True
    if t.op == "poly":
        return all(all(is_indicator(a) for a, p in m) for m, c in t.args)
    return False


AGG = {"struct", "tuple", "variant", "str", "seq", "list", "concat", "clo", "place", "upd", "obj", "iter", "setf"}


def ite(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if a.op == "never":
        return b
    if b.op == "never":
        return a
    if a.op == "tuple" and b.op == "tuple" and len(a.args) == len(b.args):
        return mk("tuple", *[ite(c, x, y) for x, y in zip(a.args, b.args)])
    if a.op == "struct" and b.op == "struct" and a.args[0] == b.args[0]:
        da, db = dict(a.args[1]), dict(b.args[1])
        if set(da) == set(db):
            return struct(a.args[0], {k: ite(c, da[k], db[k]) for k in da})
    if a.op == "variant" and b.op == "variant" and a.args[:2] == b.args[:2]:
        da, db = dict(a.args[2]), dict(b.args[2])
        return mk("variant", a.args[0], a.args[1], tuple((k, ite(c, da[k], db[k])) for k in sorted(da)))
    if "obj" in (a.op, b.op):
        # overlaid objects: merge field by field when the base is shared
        ba, fa = (a.args[0], dict(a.args[1])) if a.op == "obj" else (a, {})
        bb, fb = (b.args[0], dict(b.args[1])) if b.op == "obj" else (b, {})
        if ba is bb:
            ks = sorted(set(fa) | set(fb))
            return obj(ba, {k: ite(c, fa.get(k) or proj(ba, k), fb.get(k) or proj(bb, k)) for k in ks})
    if a.op in AGG or b.op in AGG or (a.op == "ite" or b.op == "ite") or not (numericish(a) and numericish(b)):
        return mkite(c, a, b)
    if is_boolean_cmp(c) and not (is_bool(a) and is_bool(b)):
        r = minmax(c, a, b)
        if r is not None:
            return r
    return add(mul(c, a), mul(not_(c), b))


def is_boolean_cmp(c):
    return bool(c.op == "pos" or (c.op == "poly" and any(a.op == "pos" for m, _ in c.args for a, _ in m)))


def minmax(c, a, b):
    """recognise  if a<b {b} else {a}  and friends (ties are harmless)"""
    d = sub(a, b)
    if d is ZERO:
        return a
    for strict in (pos(d), not_(pos(neg(d))), pos(d, True), not_(pos(neg(d), True))):     # a>b , a>=b
        if c is strict:
            r = maxabs(a, b)
            return r
    for strict in (pos(neg(d)), not_(pos(d)), pos(neg(d), True), not_(pos(d, True))):     # a<b , a<=b
        if c is strict:
            r = minabs(a, b)
            return r
    return None


def maxabs(a, b):
    if a is neg(b):
        return abs_(a)
    return max_(a, b)


def minabs(a, b):
    if a is neg(b):
        return neg(abs_(a))
    return min_(a, b)


def cases(t):
    """[(guard, value)] of an ite chain; the guards are disjoint and exhaustive"""
    out = []
    rest = TRUE
    while t.op == "ite":
        g = mul(rest, t.args[0])
        if g is not FALSE:
            out.append((g, t.args[1]))
        rest = mul(rest, not_(t.args[0]))
        t = t.args[2]
    if rest is not FALSE:
        out.append((rest, t))
    return out


def mkite(c, a, b):
    """flat canonical chain: every distinct value with its total guard"""
    if c.op == "big" or not is_bool(c):
        return mk("ite", c, a, b)
    acc, order = {}, []
    nc = not_(c)
    for g0, t in ((c, a), (nc, b)):
        for g, v in cases(t):
            w = mul(g0, g)
            if w is FALSE:
                continue
            if w.op == "big" or (w.op == "poly" and len(w.args) > 300):
                return mk("ite", c, a, b)
            if v in acc:
                acc[v] = add(acc[v], w)
            else:
                acc[v] = w
    items = sorted(acc.items(), key=lambda vg: vg[0].id)
    if len(items) == 1:
        return items[0][0]
    # numeric-only leftovers collapse to a polynomial
    if all(numericish(v) for v, _ in items) and not any(v.op in AGG for v, _ in items):
        return add(*[mul(g, v) for v, g in items])
    r = items[-1][0]
    for v, g in reversed(items[:-1]):
        r = mk("ite", g, v, r)
    return r


NUMTY = {}


def numericish(t):
    if t.op == "poly":
        return True
    if t.op in ("find", "sum", "prod", "maxof", "minof", "max", "min", "abs", "len", "pos", "zero", "is", "ln", "exp", "idiv", "rem",
                "signum", "const", "any", "all", "bool", "idx", "bv", "trunc", "ceil", "floor", "num"):
        return True
    if t in NUMTY:
        return NUMTY[t]
    if t.op in ("field", "at", "call", "proj", "sym", "loopvar", "loopout", "fld", "havoc", "muvar"):
        return NUMTY.get(t, False)
    return False


def mark_num(t, yes=True):
    if t.op in ("field", "at", "call", "proj", "sym", "loopvar", "loopout", "fld", "havoc", "nth", "first", "last", "mapget", "muvar"):
        NUMTY[t] = yes
    return t


# ---------------------------------------------------------------- aggregates
def struct(adt, d):
    return mk("struct", adt, tuple(sorted(d.items())))


def obj(base, fields):
    if base.op == "obj":
        f = dict(base.args[1])
        f.update(fields)
        return obj(base.args[0], f)
    if base.op == "struct":
        f = dict(base.args[1])
        f.update(fields)
        return struct(base.args[0], f)
    fields = {k: v for k, v in fields.items() if not (v.op == "field" and v.args[0] is base and v.args[1] == k)}
    if not fields:
        return base
    return mk("obj", base, tuple(sorted(fields.items())))


def proj(v, name):
    """field projection"""
    if v.op == "tuple":
        return v.args[int(name)]
    if v.op == "struct":
        d = dict(v.args[1])
        if name in d:
            return d[name]
    if v.op == "obj":
        d = dict(v.args[1])
        if name in d:
            return d[name]
        return proj(v.args[0], name)
    if v.op == "ite":
        return ite(v.args[0], proj(v.args[1], name), proj(v.args[2], name))
    if v.op == "variant":
        d = dict(v.args[2])
        if name in d:
            return d[name]
    if v.op == "range" and name in ("start", "end"):
        return v.args[0 if name == "start" else 1]
    return mk("field", v, name)


def variant(adt, name, *vals, **kw):
    d = {str(i): v for i, v in enumerate(vals)}
    d.update(kw)
    return mk("variant", adt, name, tuple(sorted(d.items())))


def some(v):
    return variant("Option", "Some", v)


NONE = mk("variant", "Option", "None", ())
UNIT = mk("tuple")
NEVER = mk("never")

TWO = {"None": "Some", "Err": "Ok", "Break": "Continue", "Greater": None}


def is_variant(v, name):
    if v.op == "variant":
        return TRUE if v.args[1] == name else FALSE
    if v.op == "ite":
        a, b = is_variant(v.args[1], name), is_variant(v.args[2], name)
        return add(mul(v.args[0], a), mul(not_(v.args[0]), b))
    if v.op == "setv":
        return is_variant(v.args[0], name)
    if v.op == "cmp" and name in ("Less", "Equal", "Greater"):
        a, b, integer = v.args[0], v.args[1], v.args[2] is TRUE
        if name == "Less":
            return lt(a, b, integer)
        if name == "Greater":
            return lt(b, a, integer)
        return eqb(a, b)
    if v.op == "branch":
        x = v.args[0]
        if name == "Continue":
            return is_variant(x, v.args[1])
        return not_(is_variant(x, v.args[1]))
    if name in TWO and TWO[name]:
        return not_(is_variant(v, TWO[name]))
    return mk("is", v, name)


def vproj(v, vname, f):
    """payload projection"""
    if v.op == "variant":
        d = dict(v.args[2])
        if v.args[1] == vname and f in d:
            return d[f]
        return NEVER
    if v.op == "ite":
        a, b = vproj(v.args[1], vname, f), vproj(v.args[2], vname, f)
        if a is NEVER:
            return b
        if b is NEVER:
            return a
        return ite(v.args[0], a, b)
    if v.op == "branch":
        if vname == "Continue":
            return vproj(v.args[0], v.args[1], "0")
        return mk("residual", v.args[0], v.args[1])
    if v.op == "setv" and v.args[1] == vname:
        return v.args[3] if v.args[2] == f else vproj(v.args[0], vname, f)
    return mk("proj", v, vname, f)


# ------------------------------------------------------------------ sequences
FULL = mk("dom")  # index domain [0, len)


def dom(lo, hi):
    return mk("dom", lo, hi)


def seq(i, d, guard, elem):
    # eta: seq(i, at(x,i)) == x  (whole domain, unguarded)
    if guard is TRUE and elem.op == "at" and elem.args[1] is i and i not in fvs(elem.args[0]):
        b = elem.args[0]
        if d.op == "dom" and (not d.args or (d.args[0] is ZERO and d.args[1] is length(b))):
            return b
    # element-wise map over a guarded sequence keeps that sequence's own index
    if guard is TRUE and (not d.args or d.args[0] is ZERO):
        xs = nth_sources(elem, i)
        if xs and len(xs) == 1:
            x = next(iter(xs))
            if not d.args or d.args[1] is length(x):
                j, (d2, g2, e2) = open_(x)
                el = subst(elem, {mk("nth", x, i): e2})
                if i not in fvs(el):
                    return seq(j, d2, g2, el)
    return bind("seq", i, d, guard, elem)


def perm_reduce(i, d, body):
    """a fold over all positions of a permutation of 0..n visits every index once"""
    src = []

    def f(t):
        if t.op == "at" and t.args[1] is i:
            src.append(t.args[0])
    walk(body, f)
    perms = {x for x in src if x.op in ("sorted", "rev", "shuffled")}
    if len(perms) != 1:
        return None
    p = b = perms.pop()
    while b.op in ("sorted", "rev", "shuffled"):
        b = b.args[0]
    if d.args[1] is not length(b):
        return None
    j = fresh()
    if b.op == "seq":
        k, (d2, g2, e2) = open_(b)
        if g2 is not TRUE or not d2.args or d2.args[0] is not ZERO:
            return None
    b2 = subst(body, {mk("at", p, i): at(b, j)})
    if i in fvs(b2):
        return None
    return j, d, b2


def nth_sources(elem, i):
    out = set()
    bad = []

    def f(t):
        if t.op == "nth" and t.args[1] is i:
            out.add(t.args[0])
    walk(elem, f)
    return out


# functions of the crate whose result has the length of one of their arguments
# (an obligation of the rule that covers the function)
LENCALLS = {}


def length(t):
    if t.op == "list":
        return num(len(t.args))
    if t.op == "seq":
        i, (d, g, e) = open_(t)
        if g is TRUE and d.args:
            return sub(d.args[1], d.args[0])
        return mk("sum", *bind("sum", i, d, g).args) if g is not TRUE else mk("len", t)
    if t.op == "concat":
        return add(*[length(x) for x in t.args])
    if t.op == "flat":
        i, (d, b) = open_(t)
        return sum_(i, d, length(b))
    if t.op == "upd":
        return length(t.args[0])
    if t.op in ("mapover", "setslice"):
        return length(t.args[1] if t.op == "mapover" else t.args[0])
    if t.op == "sorted":
        return length(t.args[0])
    if t.op == "call" and t.args[0] in ("map_keys", "map_values"):
        return mk("len", t.args[1])
    if t.op == "call" and t.args[0] in LENCALLS:
        return length(t.args[1 + LENCALLS[t.args[0]]])
    if t.op in ("rev",):
        return length(t.args[0])
    if t.op == "slice":
        return sub(t.args[2], t.args[1])
    if t.op == "ite":
        return ite(t.args[0], length(t.args[1]), length(t.args[2]))
    return mk("len", t)


def at(t, k):
    if t.op == "seq":
        i, (d, g, e) = open_(t, k)
        if g is TRUE:
            lo = d.args[0] if d.args else ZERO
            if lo is ZERO:
                return e
            return open_(t, add(lo, k))[1][2]
        return mk("nth", t, k)
    if t.op == "list" and is_num(k):
        n = numval(k)
        if n.denominator == 1 and 0 <= n < len(t.args):
            return t.args[int(n)]
    if t.op == "upd":
        j, v = t.args[1], t.args[2]
        if j is k:
            return v
        if distinct(j, k):
            return at(t.args[0], k)
        return ite(zero(sub(j, k)), v, at(t.args[0], k)) if numericish(v) else mk("at", t, k)
    if t.op == "concat":
        # index into the first part when it certainly falls there
        off = ZERO
        for part in t.args:
            n = length(part)
            d = sub(k, off)
            if is_num(d) and is_num(n) and numval(d) < numval(n):
                return at(part, d)
            if not (is_num(n)):
                break
            off = add(off, n)
        # last part
        last = t.args[-1]
        off = add(*[length(x) for x in t.args[:-1]])
        d = sub(k, off)
        if is_num(d) and numval(d) >= 0:
            return at(last, d)
    if t.op == "ite":
        return ite(t.args[0], at(t.args[1], k), at(t.args[2], k))
    if t.op == "slice":
        return at(t.args[0], add(t.args[1], k))
    if t.op == "rev":
        return at(t.args[0], sub(sub(length(t.args[0]), ONE), k))
    return mk("at", t, k)


def distinct(a, b):
    d = sub(a, b)
    return is_num(d) and numval(d) != 0


def concat(*parts):
    out = []
    for p in parts:
        if p.op == "concat":
            out.extend(p.args)
        elif p.op == "list" and not p.args:
            continue
        elif p.op == "list" and out and out[-1].op == "list":
            out[-1] = mk("list", *(out[-1].args + p.args))
        else:
            out.append(p)
    if not out:
        return mk("list")
    if len(out) == 1:
        return out[0]
    return mk("concat", *out)


def tally_sum(i, m, body):
    """Σ over the entries of a map built by adding up values per key, of a term linear in the value"""
    base = m
    while base.op == "tallyon" and base.args[2] in "+~":
        base = base.args[0]
    mv, mkey = at(mk("call", "map_values", m), i), at(mk("call", "map_keys", m), i)
    if not contains(body, lambda x: x is mv):
        return None
    co = ZERO
    for mono, c in as_poly(body).items():
        vs = [p for a, p in mono if a is mv]
        if vs != [1]:
            return None
        co = add(co, from_poly({tuple(x for x in mono if x[0] is not mv): c}))
    k = mk("sym", "tally-key")
    co = subst(co, {mkey: k})
    if i in fvs(co):
        return None

    def go(t):
        j, (d, g, x) = open_(t)
        if x.op == "tally":
            return sum_(j, d, mul(g, go(x)))
        return sum_(j, d, mul(g, mul(subst(co, {k: x.args[0]}), x.args[1])))
    if base.op == "mapempty":
        acc = ZERO
    else:
        if m is base:
            return None
        j = fresh()
        acc = sum_(j, dom(ZERO, mk("len", base)), mul(subst(co, {k: at(mk("call", "map_keys", base), j)}), at(mk("call", "map_values", base), j)))
    while m is not base:
        acc = add(acc, go(m.args[1]))
        m = m.args[0]
    return acc


def prefix_cut(i, d, m):
    """Σ_{lo ≤ i < hi} [i < c]·X  =  Σ_{lo ≤ i < min(hi, c)} X"""
    if len(d.args) != 2:
        return None
    for a, p in m:
        if a.op != "pos" or p != 1 or not intlike(a.args[0]):
            continue
        q = as_poly(a.args[0])
        own = {k: c for k, c in q.items() if any(i in fvs(x) for x, _ in k)}
        if own != {((i, 1),): -1}:
            continue
        c = from_poly({k: v for k, v in q.items() if k not in own})
        return mk("dom", d.args[0], min_(d.args[1], c)), from_poly({tuple((x, e) for x, e in m if x is not a): Fraction(1)})
    return None


def sum_(i, d, body):
    """Σ_{i in d} body, linear, index-free factors pulled out"""
    acc = ZERO
    if d.args and is_num(d.args[0]) and is_num(d.args[1]):
        k = numval(d.args[1]) - numval(d.args[0])
        if k <= 0:
            return ZERO
        if k == 1:
            return subst(body, {i: d.args[0]})
    if not d.args or d.args[0] is ZERO:
        xs = nth_sources(body, i)
        if len(xs) == 1:
            x = next(iter(xs))
            if not d.args or d.args[1] is length(x):
                j, (d2, g2, e2) = open_(x)
                b2 = subst(body, {mk("nth", x, i): e2})
                if i not in fvs(b2):
                    return sum_(j, d2, mul(g2, b2))
        if d.args and d.args[1].op == "len" and d.args[1].args[0].op == "tallyon":
            r = tally_sum(i, d.args[1].args[0], body)
            if r is not None:
                return r
    if d.args and d.args[0] is ZERO:
        r = perm_reduce(i, d, body)
        if r is not None:
            return sum_(*r)
    for m, c in as_poly(body).items():
        cut = prefix_cut(i, d, m)
        if cut is not None:
            acc = add(acc, mul(num(c), sum_(i, *cut)))
            continue
        out, inn = [], []
        for a, p in m:
            (inn if i in fvs(a) else out).append((a, p))
        if not inn and not (d.op == "dom" and not d.args and False):
            inner = mk("dlen", d) if not (d.args) else sub(d.args[1], d.args[0])
        else:
            inner = bind("sum", i, d, from_poly({tuple(inn): Fraction(1)}) if inn else ONE)
        acc = add(acc, mul(num(c), from_poly({tuple(out): Fraction(1)}) if out else ONE, inner))
    return acc


# --------------------------------------------------------------- scalar funcs
def max_(a, b):
    if is_num(a) and is_num(b):
        return num(max(numval(a), numval(b)))
    s = set()
    for x in (a, b):
        s |= set(x.args) if x.op == "max" else {x}
    if len(s) == 1:
        return s.pop()
    if len(s) == 2:
        # clamping in either order: max(lo, min(hi, x)) = min(hi, max(lo, x)) for lo <= hi
        lo = next((x for x in s if is_num(x)), None)
        m = next((x for x in s if x.op == "min"), None)
        if lo is not None and m is not None:
            hi = next((x for x in m.args if is_num(x)), None)
            if hi is not None and numval(lo) <= numval(hi):
                rest = [x for x in m.args if x is not hi]
                if len(rest) == 1:
                    return min_(hi, max_(lo, rest[0]))
    return mk("max", *sorted(s, key=lambda t: t.id))


def min_(a, b):
    if is_num(a) and is_num(b):
        return num(min(numval(a), numval(b)))
    s = set()
    for x in (a, b):
        s |= set(x.args) if x.op == "min" else {x}
    if len(s) == 1:
        return s.pop()
    return mk("min", *sorted(s, key=lambda t: t.id))


def clamp(x, lo, hi):
    return min_(max_(x, lo), hi)


def abs_(x):
    if is_num(x):
        return num(abs(numval(x)))
    if x.op == "poly":
        lead = next(c for m, c in x.args if m != ())
        if lead < 0:
            x = neg(x)
        if len(x.args) == 1 and x.args[0][1] not in (1, -1):
            c = abs(x.args[0][1])
            return mul(num(c), abs_(div(x, num(c))))
    return mk("abs", x)


def signum(x):
    if is_num(x):
        v = numval(x)
        return num(1 if v >= 0 else -1)
    if x.op == "poly":
        lead = next(c for m, c in x.args if m != ())
        if lead < 0:
            return neg(signum(neg(x)))
        x2 = from_poly({m: c / lead for m, c in x.args})
        return mk("signum", x2)
    return mk("signum", x)


def ln(x):
    if x is ONE:
        return ZERO
    if x.op == "exp":
        return x.args[0]
    if x.op == "poly" and len(x.args) == 1:
        m, c = x.args[0]
        acc = ZERO
        flip = None
        if c < 0:
            # the sign belongs to one odd factor whose constant part is negative
            for a, p in m:
                if a.op == "poly" and p.denominator == 1 and p % 2 == 1 and dict(a.args).get((), 0) < 0:
                    flip = a
                    break
            if flip is None:
                cand = [a for a, p in m if a.op == "poly" and p.denominator == 1 and p % 2 == 1]
                flip = cand[0] if len(cand) == 1 else None
            if flip is None:
                acc = mk("lneg")
            c = -c
        if c != 1:
            if c.numerator != 1:
                acc = add(acc, mk("ln", num(c.numerator)))
            if c.denominator != 1:
                acc = sub(acc, mk("ln", num(c.denominator)))
        for a, p in m:
            b = neg(a) if a is flip else a
            la = b.args[0] if b.op == "exp" else mk("ln", num(b.args[0]) if b.op == "const" else b)
            acc = add(acc, mul(num(p), la))
        return acc
    if x.op == "poly" and len(x.args) > 1:
        # pull out the common denominator and content: ln(a/d + b/d) = ln(a+b) - ln d
        den = {}
        for m, c in x.args:
            for a, p in m:
                if p < 0:
                    den[a] = max(den.get(a, 0), -p)
        common = {a: q for a, q in den.items() if all(dict(m).get(a, 0) <= -q for m, c in x.args)}
        if common:
            v = x
            acc = ZERO
            for a, q in common.items():
                v = mul(v, mk("poly", (((a, q),), Fraction(1))))
                acc = sub(acc, mul(num(q), ln(a)))
            return add(ln(v), acc)
        # common positive rational content
        from math import gcd
        g = 0
        l = 1
        for m, c in x.args:
            g = gcd(g, abs(c.numerator))
            l = l * c.denominator // gcd(l, c.denominator)
        cont = Fraction(g, l)
        if cont != 1 and cont > 0:
            return add(ln(num(cont)), ln(mul(x, num(1 / cont))))
    return mk("ln", x)


def exp(x):
    if x is ZERO:
        return ONE
    # exp(Σ terms) = Π exp(term)^coeff with canonical atoms
    r = ONE
    rest = {}
    for m, c in as_poly(x).items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "ln":
            r = mul(r, power(m[0][0].args[0], c))
        elif m == ():
            r = mul(r, mk("poly", (((mk("exp", ONE), c),), Fraction(1))))
        else:
            e = mk("exp", from_poly({m: Fraction(1)}))
            r = mul(r, mk("poly", (((e, c),), Fraction(1))) if c != 1 else e)
    return r


def idiv(a, b):
    if is_num(b) and numval(b) == 1:
        return a
    if is_num(a) and is_num(b) and numval(b) != 0:
        return num(numval(a) // numval(b))
    return mk("idiv", a, b)


REBUILD.update({
    "at": at, "len": length, "field": proj, "max": lambda *a: _nary(max_, a), "min": lambda *a: _nary(min_, a),
    "abs": abs_, "signum": signum, "ln": ln, "exp": exp, "ite": ite, "zero": zero,
    "pos": lambda p: pos(p), "is": is_variant, "proj": vproj, "concat": concat, "idiv": idiv,
    "obj": lambda b, f: obj(b, dict(f)),
})


def _nary(f, a):
    r = a[0]
    for x in a[1:]:
        r = f(r, x)
    return r


# ------------------------------------------------------------------- printing
def show(t, depth=0):
    if depth > 14:
        return "…"
    d = depth + 1
    if t.op == "poly":
        if not t.args:
            return "0"
        out = []
        for m, c in t.args:
            ps = []
            for a, p in m:
                s_ = show(a, d)
                if a.op == "poly":
                    s_ = "(" + s_ + ")"
                ps.append(s_ if p == 1 else f"{s_}^{p}")
            if not ps:
                out.append(str(c))
            elif c == 1:
                out.append("·".join(ps))
            elif c == -1:
                out.append("-" + "·".join(ps))
            else:
                out.append(f"{c}·" + "·".join(ps))
        return " + ".join(out).replace("+ -", "- ")
    if t.op in ("sym",):
        return str(t.args[0])
    if t.op == "idx":
        return f"{t.args[0]}{t.args[1]}"
    if t.op == "bv":
        return f"b{t.args[0]}"
    if t.op == "field":
        return f"{show(t.args[0], d)}.{t.args[1]}"
    if t.op == "at":
        return f"{show(t.args[0], d)}[{show(t.args[1], d)}]"
    if t.op == "call":
        return f"{short(t.args[0])}({', '.join(show(a, d) if isinstance(a, T) else str(a) for a in t.args[1:])})"
    if t.op == "struct":
        return f"{short(t.args[0])}{{{', '.join(k + ': ' + show(v, d) for k, v in t.args[1])}}}"
    if t.op == "variant":
        return f"{t.args[1]}({', '.join(show(v, d) for k, v in t.args[2])})"
    if t.op == "pos":
        return f"[{show(t.args[0], d)} > 0]"
    if t.op == "zero":
        return f"[{show(t.args[0], d)} = 0]"
    if t.op == "dom":
        return "FULL" if not t.args else f"{show(t.args[0], d)}..{show(t.args[1], d)}"

    def sa(a):
        if isinstance(a, T):
            return show(a, d)
        if isinstance(a, tuple):
            return "(" + ",".join(sa(x) for x in a) + ")"
        return str(a)
    return f"{t.op}({', '.join(sa(a) for a in t.args)})"


def short(p):
    p = str(p)
    import re
    p = re.sub(r"<.*?>", "", p)
    return p.split("::")[-1] if "::" in p else p


def walk(t, f, seen=None):
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        f(x)
        st.extend(kids(x))


def contains(t, pred):
    hit = []

    def f(x):
        if pred(x):
            hit.append(x)
    walk(t, f)
    return hit
