"""Models of the std / rayon functions the crate uses (value-graph transfer functions)."""
import re
from fractions import Fraction
from terms import *
import interp as I
from interp import norm, slice_, mapget, mapset, upd, lengthlike, strip_ref, NUM_TYPES, INT_TYPES, contains_term

MODELS = {}


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def V(ip, st, a):
    return ip.deref(st, a)


# ------------------------------------------------------------------ identity
@model("Deref::deref", "AsRef::as_ref", "Borrow::borrow", "Clone::clone", "ToOwned::to_owned", "Box::new", "Rc::new",
       "Arc::new", "RefCell::new", "Cell::new", "RefCell::into_inner", "RefCell::borrow", "slice::to_vec", "slice::into_vec", "hint::must_use",
       "Iterator::copied", "Iterator::cloned", "ParallelIterator::copied", "ParallelIterator::cloned", "Option::as_ref", "Option::cloned", "Option::copied",
       "Option::as_deref", "Result::as_ref", "Vec::as_slice", "boxed::box_assume_init_into_vec_unsafe", "Iterator::fuse",
       "hint::black_box", "Vec::into_boxed_slice", "String::as_str", "str::as_ref", "Iterator::peekable",
       "Rc::clone", "Arc::clone", "String::as_bytes", "str::as_bytes", "convert::identity", "ParallelIterator::with_min_len", "RefCell::get_mut_ref")
def identity(ip, a, st, e, f):
    return V(ip, st, a[0])


@model("DerefMut::deref_mut", "AsMut::as_mut", "Vec::as_mut_slice", "BorrowMut::borrow_mut", "RefCell::get_mut", "Iterator::by_ref")
def identity_mut(ip, a, st, e, f):
    return a[0]


@model("RefCell::borrow_mut")
def borrow_mut(ip, a, st, e, f):
    if a[0].op == "place":
        return a[0]
    pl = None
    if e is not None:
        pl = chain_place(ip, e["args"][0], st, ip.cur_frame) if hasattr(ip, "cur_frame") else None
    if pl is not None:
        return mk("place", pl[0], pl[1])
    return mk("place", ip.temp(st, a[0]), ())


def chain_place(ip, e, st, frame):
    while True:
        k = e["k"]
        if k in ("ref", "coerce"):
            e = e["e"]
        elif k == "block" and not e["stmts"] and e["expr"]:
            e = e["expr"]
        elif k == "deref":
            p = chain_place(ip, e["e"], st, frame)
            return p
        elif k == "call" and "path" in e["f"] and norm(e["f"]["path"]) in ("Deref::deref", "Option::as_ref", "AsRef::as_ref", "Rc::as_ref"):
            e = e["args"][0]
        elif k == "call" and "path" in e["f"] and norm(e["f"]["path"]) in ("Option::unwrap", "Option::expect"):
            p = chain_place(ip, e["args"][0], st, frame)
            return None if p is None else (p[0], p[1] + (("v", "Some", "0"),))
        elif k in ("var", "upvar"):
            v = ip.eval(e, st, frame)
            if v.op == "place":
                return (v.args[0], v.args[1])
            return ip.place_of(e, st, frame)
        elif k in ("field", "index"):
            p = ip.place_of(e, st, frame)
            if p is None:
                return None
            q = ip.mkplace(st, *p)
            return (q.args[0], q.args[1])
        else:
            return None


@model("Into::into", "From::from", "TryInto::try_into")
def into(ip, a, st, e, f):
    ty = e["ty"] if e else ""
    v = V(ip, st, a[0])
    t = strip_ref(ty)
    if t in NUM_TYPES or (f["targs"] and len(f["targs"]) > 1 and f["targs"][0] == f["targs"][1]):
        return v
    if v.op == "range" and "RangeInclusive" not in t:
        return v
    if "Vec<" in t or "Box<" in t or "Option<" in t or "Rc<" in t:
        if v.op in ("list", "seq", "concat"):
            return v
    return mk("call", "into", v, mk("str", re.sub(r"'\w+ ?", "", t)))


@model("Option::as_mut", "Option::as_deref_mut")
def as_mut(ip, a, st, e, f):
    p = a[0]
    if p.op != "place":
        return p
    v = V(ip, st, p)
    c = is_variant(v, "Some")
    return ite(c, some(mk("place", p.args[0], p.args[1] + (("v", "Some", "0"),))), NONE)


@model("boxed::box_new_uninit", "Box::new_uninit")
def unit(ip, a, st, e, f):
    return UNIT


@model("intrinsics::write_box_via_move")
def wbvm(ip, a, st, e, f):
    return a[1]


# -------------------------------------------------------------------- floats
def fl(name, g):
    @model("f64::" + name, "f32::" + name)
    def _(ip, a, st, e, f):
        return g(*[V(ip, st, x) for x in a])


fl("ln", ln)
fl("exp", exp)
fl("sqrt", lambda x: power(x, Fraction(1, 2)) if not (x.op == "poly" and len(x.args) == 1) else power(x, Fraction(1, 2)))
fl("abs", abs_)
fl("max", max_)
fl("min", min_)
fl("clamp", clamp)
fl("signum", signum)
fl("recip", lambda x: power(x, -1))
fl("mul_add", lambda x, y, z: add(mul(x, y), z))
fl("ceil", lambda x: mk("ceil", x) if not is_num(x) else num(-((-numval(x)) // 1)))
fl("floor", lambda x: mk("floor", x) if not is_num(x) else num(numval(x) // 1))
fl("trunc", lambda x: mk("trunc", x))
fl("round", lambda x: mk("round", x))
fl("is_nan", lambda x: mk("bool", "nan", x))
fl("is_finite", lambda x: mk("bool", "finite", x))
fl("is_infinite", lambda x: mk("bool", "infinite", x))
fl("is_sign_positive", lambda x: not_(lt(x, ZERO)))
fl("is_sign_negative", lambda x: lt(x, ZERO))
fl("ln_1p", lambda x: ln(add(ONE, x)))
fl("exp_m1", lambda x: sub(exp(x), ONE))
fl("log2", lambda x: div(ln(x), ln(num(2))))
fl("log10", lambda x: div(ln(x), ln(num(10))))
fl("log", lambda x, y: div(ln(x), ln(y)))
fl("exp2", lambda x: exp(mul(x, ln(num(2)))))
fl("hypot", lambda x, y: power(add(mul(x, x), mul(y, y)), Fraction(1, 2)))
fl("copysign", lambda x, y: mul(abs_(x), signum(y)))
fl("fract", lambda x: sub(x, mk("trunc", x)))
fl("tanh", lambda x: div(sub(exp(mul(num(2), x)), ONE), add(exp(mul(num(2), x)), ONE)))


def pw(x, p):
    if is_num(p):
        return power(x, numval(p))
    return mk("pow", x, p)


fl("powi", pw)
fl("powf", pw)
for ty in ("usize", "i32", "u32", "i64", "u64", "isize", "u128", "i128", "u8", "u16"):
    for nm, g in (("pow", pw), ("min", min_), ("max", max_), ("abs", abs_),
                  ("saturating_sub", lambda x, y: max_(sub(x, y), ZERO)), ("wrapping_sub", sub), ("wrapping_add", add),
                  ("saturating_add", add),
                  ("abs_diff", lambda x, y: abs_(sub(x, y))),
                  ("checked_add", lambda x, y: ite(mk("bool", "overflow", add(x, y)), NONE, some(add(x, y)))),
                  ("checked_mul", lambda x, y: ite(mk("bool", "overflow", mul(x, y)), NONE, some(mul(x, y)))),
                  ("checked_sub", lambda x, y: ite(lt(x, y, True), NONE, some(sub(x, y)))),
                  ("checked_div", lambda x, y: ite(zero(y), NONE, some(idiv(x, y)))),
                  ("unsigned_abs", lambda x: abs_(x)),
                  ("div_ceil", lambda x, y: mk("ceil", div(x, y)) if not (is_num(x) and is_num(y)) else num(-((-numval(x)) // numval(y)))),
                  ("is_multiple_of", lambda x, y: eqb(mk("rem", x, y), ZERO)),
                  ("checked_rem", lambda x, y: ite(zero(y), NONE, some(mk("rem", x, y)))),
                  ("is_power_of_two", lambda x: mk("bool", "pow2", x)), ("signum", lambda x: signum(x))):
        def _m(ip, a, st, e, f, g=g):
            return g(*[V(ip, st, x) for x in a])
        MODELS.setdefault(f"{ty}::{nm}", _m)


@model("Ord::max", "cmp::max")
def omax(ip, a, st, e, f):
    return max_(V(ip, st, a[0]), V(ip, st, a[1]))


@model("Ord::min", "cmp::min")
def omin(ip, a, st, e, f):
    return min_(V(ip, st, a[0]), V(ip, st, a[1]))


@model("Ord::clamp")
def oclamp(ip, a, st, e, f):
    return clamp(*[V(ip, st, x) for x in a])


def arith(op):
    def g(ip, a, st, e, f):
        x, y = V(ip, st, a[0]), V(ip, st, a[1])
        t = strip_ref(f["targs"][0]) if f["targs"] else "f64"
        if t not in NUM_TYPES:
            return NotImplemented
        return ip.binop(op, x, y, t, st)
    return g


for nm, op in (("Add::add", "+"), ("Sub::sub", "-"), ("Mul::mul", "*"), ("Div::div", "/"), ("Rem::rem", "%"),
               ("BitAnd::bitand", "&"), ("BitOr::bitor", "|"), ("BitXor::bitxor", "^")):
    MODELS[nm] = arith(op)


def arith_assign(op):
    def g(ip, a, st, e, f):
        t = strip_ref(f["targs"][0]) if f["targs"] else "f64"
        if t not in NUM_TYPES or a[0].op != "place":
            return NotImplemented
        old = V(ip, st, a[0])
        ip.write(st, a[0].args[0], a[0].args[1], ip.binop(op, old, V(ip, st, a[1]), t, st))
        return UNIT
    return g


for nm, op in (("AddAssign::add_assign", "+"), ("SubAssign::sub_assign", "-"), ("MulAssign::mul_assign", "*"), ("DivAssign::div_assign", "/")):
    MODELS[nm] = arith_assign(op)


@model("Neg::neg")
def neg_(ip, a, st, e, f):
    if strip_ref(f["targs"][0]) not in NUM_TYPES:
        return NotImplemented
    return neg(V(ip, st, a[0]))


@model("Not::not")
def nott(ip, a, st, e, f):
    return not_(V(ip, st, a[0]))


def cmpop(op):
    def g(ip, a, st, e, f):
        t = strip_ref(f["targs"][0]) if f["targs"] else ""
        x, y = V(ip, st, a[0]), V(ip, st, a[1])
        if t in NUM_TYPES:
            return ip.binop(op, x, y, t, st)
        if op in ("==", "!="):
            c = local_eq(ip, a, st, f)
            if c is not None:
                return c if op == "==" else not_(c)
            if x.op == "variant" and y.op == "variant" and not x.args[2] and not y.args[2]:
                r = TRUE if x.args[1] == y.args[1] else FALSE
            elif y.op == "variant" and not y.args[2]:
                r = is_variant(x, y.args[1])
            elif x.op == "variant" and not x.args[2]:
                r = is_variant(y, x.args[1])
            elif x.op == "str" and y.op == "str":
                r = TRUE if x is y else FALSE
            else:
                r = TRUE if x is y else mk("bool", "eq", *sorted((x, y), key=lambda t: t.id))
            return r if op == "==" else not_(r)
        c = local_cmp(ip, a, st, f)
        if c is not None and c.op == "cmp":
            return ip.binop(op, c.args[0], c.args[1], "usize" if c.args[2] is TRUE else "f64", st)
        return mk("bool", op, x, y)
    return g


def local_eq(ip, a, st, f):
    """equality delivered by the crate's own PartialEq implementation of a type"""
    ta = [strip_ref(t) for t in f.get("targs") or []]
    if not ta:
        return None
    rhs = ta[1] if len(ta) > 1 else ta[0]
    for k in (f"<{ta[0]} as std::cmp::PartialEq<{rhs}>>::eq", f"<{ta[0]} as std::cmp::PartialEq>::eq"):
        if k.endswith("PartialEq>::eq") and rhs != ta[0]:
            continue
        b = ip.prog.bodies.get(k)
        if b is not None and "body" in b and ip.stack.count(k) <= 1:
            return ip.deref(st, ip.inline(b, [a[0], a[1]], st))
    return None


def local_cmp(ip, a, st, f):
    """ordering delivered by the crate's own PartialOrd implementation of a type"""
    ta = [strip_ref(t) for t in f.get("targs") or []]
    if not ta:
        return None
    want = f"<{ta[0]} as std::cmp::PartialOrd"
    for k, b in ip.prog.bodies.items():
        if not (k.startswith(want) and k.endswith("::partial_cmp")):
            continue
        arg = k[len(want):-len(">::partial_cmp")]
        rhs = arg[1:-1] if arg.startswith("<") else ta[0]
        if len(ta) > 1 and rhs != ta[1]:
            continue
        if ip.stack.count(k) > 1:
            return None
        s = st.copy()
        ip.mute += 1
        r = ip.deref(s, ip.inline(b, [a[0], a[1]], s))
        ip.mute -= 1
        return vproj(r, "Some", "0") if r.op == "variant" else None
    return None


for nm, op in (("PartialEq::eq", "=="), ("PartialEq::ne", "!="), ("PartialOrd::lt", "<"), ("PartialOrd::le", "<="),
               ("PartialOrd::gt", ">"), ("PartialOrd::ge", ">=")):
    MODELS[nm] = cmpop(op)


@model("PartialOrd::partial_cmp")
def pcmp(ip, a, st, e, f):
    return some(mkcmp(V(ip, st, a[0]), V(ip, st, a[1]), f))


@model("Ord::cmp", "f64::total_cmp")
def ocmp(ip, a, st, e, f):
    return mkcmp(V(ip, st, a[0]), V(ip, st, a[1]), f)


def mkcmp(x, y, f):
    t = strip_ref(f["targs"][0]) if f.get("targs") else ""
    return mk("cmp", x, y, TRUE if t in INT_TYPES else FALSE)


@model("Ordering::is_lt", "Ordering::is_gt", "Ordering::is_eq", "Ordering::is_le", "Ordering::is_ge", "Ordering::is_ne")
def ord_is(ip, a, st, e, f):
    v = V(ip, st, a[0])
    nm, positive = {"lt": ("Less", True), "gt": ("Greater", True), "eq": ("Equal", True), "le": ("Greater", False), "ge": ("Less", False),
                    "ne": ("Equal", False)}[f["path"][-2:]]
    c = is_variant(v, nm)
    return c if positive else not_(c)


@model("Ordering::then", "Ordering::then_with")
def ord_then(ip, a, st, e, f):
    v = V(ip, st, a[0])
    return ip.branch(st, is_variant(v, "Equal"), lambda s: V(ip, s, a[1]) if f["path"].endswith("then") else ip.call_value(a[1], [], s), lambda s: v)


@model("Ordering::reverse")
def orev(ip, a, st, e, f):
    v = V(ip, st, a[0])
    if v.op == "cmp":
        return mk("cmp", v.args[1], v.args[0], v.args[2])
    return NotImplemented


# ------------------------------------------------------------ Option / Result
def okname(f):
    return "Some" if "option::Option" in f["path"] else "Ok"


@model("Option::unwrap", "Option::expect", "Result::unwrap", "Result::expect", "Option::unwrap_unchecked")
def unwrap(ip, a, st, e, f):
    v = V(ip, st, a[0])
    nm = okname(f)
    c = is_variant(v, nm)
    if c is not TRUE:
        ip.assumes.append((ip.abs_pc(st), c, ip.stack[-1] if ip.stack else None, ip.curline))
    if c is FALSE:
        ip.event(st, "panic", "unwrap", ())
        st.dead = True
        return NEVER
    return vproj(v, nm, "0")


@model("Option::unwrap_or", "Result::unwrap_or")
def unwrap_or(ip, a, st, e, f):
    v, d = V(ip, st, a[0]), V(ip, st, a[1])
    nm = okname(f)
    c = is_variant(v, nm)
    x = vproj(v, nm, "0") if c is not FALSE else NEVER
    mark(ip, e, x, d)
    return ip.gate(c, x, d) if x is not NEVER else d


def mark(ip, e, *ts):
    if e and strip_ref(e["ty"]) in NUM_TYPES:
        for t in ts:
            mark_num(t)


@model("Option::unwrap_or_default", "Result::unwrap_or_default")
def unwrap_or_default(ip, a, st, e, f):
    v = V(ip, st, a[0])
    nm = okname(f)
    c = is_variant(v, nm)
    t = strip_ref(e["ty"])
    d = ZERO if t in NUM_TYPES else (mk("list") if "Vec<" in t else mk("call", "default", mk("str", t)))
    x = vproj(v, nm, "0") if c is not FALSE else NEVER
    mark(ip, e, x)
    return ip.gate(c, x, d) if x is not NEVER else d


@model("Option::unwrap_or_else", "Result::unwrap_or_else")
def unwrap_or_else(ip, a, st, e, f):
    v = V(ip, st, a[0])
    nm = okname(f)
    c = is_variant(v, nm)

    def no(s):
        args = [] if nm == "Some" else [vproj(v, "Err", "0")]
        return ip.call_value(a[1], args, s)
    x = vproj(v, nm, "0")
    mark(ip, e, x)
    return ip.branch(st, c, lambda s: x, no)


@model("Option::map", "Result::map", "Option::and_then", "Result::and_then")
def omap(ip, a, st, e, f):
    v = V(ip, st, a[0])
    nm = okname(f)
    c = is_variant(v, nm)
    flat = f["path"].endswith("and_then")

    def yes(s):
        r = ip.call_value(a[1], [vproj(v, nm, "0")], s)
        return r if flat else variant("Option" if nm == "Some" else "Result", nm, r)
    return ip.branch(st, c, yes, lambda s: NONE if nm == "Some" else variant("Result", "Err", vproj(v, "Err", "0")))


@model("Option::map_or", "Result::map_or", "Option::is_some_and", "Result::is_ok_and")
def map_or(ip, a, st, e, f):
    v = V(ip, st, a[0])
    nm = okname(f)
    c = is_variant(v, nm)
    if len(a) == 2:
        d, fn = FALSE, a[1]
    else:
        d, fn = V(ip, st, a[1]), a[2]
    return ip.branch(st, c, lambda s: ip.call_value(fn, [vproj(v, nm, "0")], s), lambda s: d)


@model("Option::is_none_or")
def is_none_or(ip, a, st, e, f):
    v = V(ip, st, a[0])
    c = is_variant(v, "Some")
    return ip.branch(st, c, lambda s: ip.call_value(a[1], [vproj(v, "Some", "0")], s), lambda s: TRUE)


@model("Option::map_or_else", "Result::map_or_else")
def map_or_else(ip, a, st, e, f):
    v = V(ip, st, a[0])
    nm = okname(f)
    c = is_variant(v, nm)
    return ip.branch(st, c, lambda s: ip.call_value(a[2], [vproj(v, nm, "0")], s),
                     lambda s: ip.call_value(a[1], [] if nm == "Some" else [vproj(v, "Err", "0")], s))


@model("Result::map_err")
def map_err(ip, a, st, e, f):
    v = V(ip, st, a[0])
    c = is_variant(v, "Ok")
    return ip.branch(st, c, lambda s: variant("Result", "Ok", vproj(v, "Ok", "0")),
                     lambda s: variant("Result", "Err", ip.call_value(a[1], [vproj(v, "Err", "0")], s)))


@model("Option::ok_or")
def ok_or(ip, a, st, e, f):
    v = V(ip, st, a[0])
    return ite(is_variant(v, "Some"), variant("Result", "Ok", vproj(v, "Some", "0")), variant("Result", "Err", V(ip, st, a[1])))


@model("Option::ok_or_else")
def ok_or_else(ip, a, st, e, f):
    v = V(ip, st, a[0])
    return ip.branch(st, is_variant(v, "Some"), lambda s: variant("Result", "Ok", vproj(v, "Some", "0")),
                     lambda s: variant("Result", "Err", ip.call_value(a[1], [], s)))


@model("Result::ok")
def rok(ip, a, st, e, f):
    v = V(ip, st, a[0])
    return ite(is_variant(v, "Ok"), some(vproj(v, "Ok", "0")), NONE)


@model("Option::is_some", "Result::is_ok")
def is_some(ip, a, st, e, f):
    return is_variant(V(ip, st, a[0]), okname(f))


@model("Option::is_none", "Result::is_err")
def is_none(ip, a, st, e, f):
    return not_(is_variant(V(ip, st, a[0]), okname(f)))


@model("Option::or", "Result::or")
def oor(ip, a, st, e, f):
    v, w = V(ip, st, a[0]), V(ip, st, a[1])
    return ite(is_variant(v, okname(f)), v, w)


@model("Option::or_else", "Result::or_else")
def oor_else(ip, a, st, e, f):
    v = V(ip, st, a[0])
    nm = okname(f)
    return ip.branch(st, is_variant(v, nm), lambda s: v, lambda s: ip.call_value(a[1], [] if nm == "Some" else [vproj(v, "Err", "0")], s))


@model("Option::xor")
def oxor(ip, a, st, e, f):
    v, w = V(ip, st, a[0]), V(ip, st, a[1])
    p, q = is_variant(v, "Some"), is_variant(w, "Some")
    return ite(p, ite(q, NONE, v), ite(q, w, NONE))


@model("Option::flatten")
def oflatten(ip, a, st, e, f):
    v = V(ip, st, a[0])
    return ite(is_variant(v, "Some"), vproj(v, "Some", "0"), NONE)


@model("Option::inspect")
def oinspect(ip, a, st, e, f):
    v = V(ip, st, a[0])
    ip.branch(st, is_variant(v, "Some"), lambda s: ip.call_value(a[1], [vproj(v, "Some", "0")], s), lambda s: UNIT)
    return v


@model("Option::unzip")
def ounzip(ip, a, st, e, f):
    v = V(ip, st, a[0])
    c = is_variant(v, "Some")
    x = vproj(v, "Some", "0")
    return mk("tuple", ite(c, some(proj(x, "0")), NONE), ite(c, some(proj(x, "1")), NONE))


@model("Result::err")
def rerr(ip, a, st, e, f):
    v = V(ip, st, a[0])
    return ite(is_variant(v, "Ok"), NONE, some(vproj(v, "Err", "0")))


@model("Option::filter")
def ofilter(ip, a, st, e, f):
    v = V(ip, st, a[0])
    c = is_variant(v, "Some")
    x = vproj(v, "Some", "0")
    return ip.branch(st, c, lambda s: ite(ip.call_value(a[1], [x], s), v, NONE), lambda s: NONE)


@model("Option::zip")
def ozip(ip, a, st, e, f):
    v, w = V(ip, st, a[0]), V(ip, st, a[1])
    return ite(and_(is_variant(v, "Some"), is_variant(w, "Some")), some(mk("tuple", vproj(v, "Some", "0"), vproj(w, "Some", "0"))), NONE)


@model("Option::take")
def otake(ip, a, st, e, f):
    v = V(ip, st, a[0])
    if a[0].op == "place":
        ip.write(st, a[0].args[0], a[0].args[1], NONE)
    return v


@model("Option::insert", "Option::replace")
def oinsert(ip, a, st, e, f):
    if a[0].op == "place":
        old = V(ip, st, a[0])
        ip.write(st, a[0].args[0], a[0].args[1], some(a[1]))
        if f["path"].endswith("replace"):
            return old
        return mk("place", a[0].args[0], a[0].args[1] + (("v", "Some", "0"),))
    return NotImplemented


@model("Option::get_or_insert_with", "Option::get_or_insert")
def goi(ip, a, st, e, f):
    if a[0].op != "place":
        return NotImplemented
    v = V(ip, st, a[0])
    d = ip.call_value(a[1], [], st) if f["path"].endswith("with") else a[1]
    ip.write(st, a[0].args[0], a[0].args[1], ite(is_variant(v, "Some"), v, some(d)))
    return mk("place", a[0].args[0], a[0].args[1] + (("v", "Some", "0"),))


@model("Try::branch")
def branch(ip, a, st, e, f):
    v = V(ip, st, a[0])
    t = f["targs"][0] if f["targs"] else ""
    if "ControlFlow" in t.split("<")[0]:
        return v
    return mk("branch", v, "Some" if "Option" in t.split("<")[0] else "Ok")


@model("FromResidual::from_residual")
def from_residual(ip, a, st, e, f):
    r = V(ip, st, a[0])
    return resid(r, e)


def resid(r, e):
    if r.op == "residual":
        if r.args[1] == "Some":
            return NONE
        return variant("Result", "Err", vproj(r.args[0], "Err", "0"))
    if r.op == "ite":
        return ite(r.args[0], resid(r.args[1], e), resid(r.args[2], e))
    if r.op == "variant":
        return r
    return mk("call", "from_residual", r)


@model("ControlFlow::is_break")
def is_break(ip, a, st, e, f):
    return is_variant(V(ip, st, a[0]), "Break")


@model("ControlFlow::is_continue")
def is_cont(ip, a, st, e, f):
    return is_variant(V(ip, st, a[0]), "Continue")


@model("ControlFlow::break_value")
def break_value(ip, a, st, e, f):
    v = V(ip, st, a[0])
    return ite(is_variant(v, "Break"), some(vproj(v, "Break", "0")), NONE)


@model("bool::then")
def then(ip, a, st, e, f):
    return ip.branch(st, V(ip, st, a[0]), lambda s: some(ip.call_value(a[1], [], s)), lambda s: NONE)


@model("bool::then_some")
def then_some(ip, a, st, e, f):
    return ite(V(ip, st, a[0]), some(V(ip, st, a[1])), NONE)


@model("Rc::try_unwrap", "Arc::try_unwrap")
def try_unwrap(ip, a, st, e, f):
    return variant("Result", "Ok", V(ip, st, a[0]))


# --------------------------------------------------------------------- memory
@model("mem::swap")
def swap(ip, a, st, e, f):
    x, y = V(ip, st, a[0]), V(ip, st, a[1])
    ip.write(st, a[0].args[0], a[0].args[1], y)
    ip.write(st, a[1].args[0], a[1].args[1], x)
    return UNIT


@model("mem::replace")
def replace(ip, a, st, e, f):
    x = V(ip, st, a[0])
    ip.write(st, a[0].args[0], a[0].args[1], a[1])
    return x


@model("mem::take")
def take_(ip, a, st, e, f):
    x = V(ip, st, a[0])
    t = strip_ref(e["ty"])
    d = ZERO if t in NUM_TYPES else (mk("list") if "Vec<" in t else (NONE if t.startswith("std::option::Option") else mk("call", "default", mk("str", t))))
    if re.search("(HashMap|HashSet|BTreeMap|BTreeSet)$", t.split("<")[0]):
        d = mk("mapempty")
    ip.write(st, a[0].args[0], a[0].args[1], d)
    return x


@model("intrinsics::discriminant_value", "mem::discriminant")
def discriminant(ip, a, st, e, f):
    return mk("discr", V(ip, st, a[0]))


@model("mem::drop")
def drop_(ip, a, st, e, f):
    return UNIT


@model("Default::default")
def default(ip, a, st, e, f):
    t = strip_ref(e["ty"])
    if f["local"]:
        return NotImplemented
    if t in NUM_TYPES:
        return ZERO
    if "Vec<" in t.split("<")[0] + "<":
        return mk("list")
    return mk("call", "default", mk("str", t))


# ----------------------------------------------------------------------- vecs
@model("Vec::new", "Vec::with_capacity", "VecDeque::new", "VecDeque::with_capacity")
def vnew(ip, a, st, e, f):
    return mk("list")


@model("vec::from_elem")
def from_elem(ip, a, st, e, f):
    return seq(fresh(), dom(ZERO, V(ip, st, a[1])), TRUE, V(ip, st, a[0]))


@model("Vec::push", "VecDeque::push_back")
def push(ip, a, st, e, f):
    if a[0].op != "place":
        return NotImplemented
    old = V(ip, st, a[0])
    ip.write(st, a[0].args[0], a[0].args[1], pushed(old, mk("list", a[1])))
    return UNIT


def pushed(old, x):
    if old.op == "ite":
        return ite(old.args[0], pushed(old.args[1], x), pushed(old.args[2], x))
    return concat(old, x)


@model("Vec::len", "slice::len", "VecDeque::len", "str::len", "String::len", "HashMap::len", "HashSet::len", "ExactSizeIterator::len")
def length_(ip, a, st, e, f):
    v = V(ip, st, a[0])
    if v.op == "iter":
        d = domof(ip, v, st)
        return sub(d.args[1], d.args[0]) if d.args else mk("dlen", d)
    return length(v)


@model("Vec::is_empty", "slice::is_empty", "HashMap::is_empty", "HashSet::is_empty", "str::is_empty", "String::is_empty")
def is_empty(ip, a, st, e, f):
    L = length(V(ip, st, a[0]))
    return not_(pos(L, True))


@model("Vec::clear", "HashMap::clear", "HashSet::clear")
def clear(ip, a, st, e, f):
    ip.write(st, a[0].args[0], a[0].args[1], mk("list") if "Vec" in f["path"] else mk("mapempty"))
    return UNIT


@model("Vec::reserve", "Vec::shrink_to_fit", "Vec::reserve_exact")
def nop(ip, a, st, e, f):
    return UNIT


@model("Vec::extend_from_slice", "Extend::extend", "ParallelExtend::par_extend")
def extend(ip, a, st, e, f):
    if a[0].op != "place":
        return NotImplemented
    t = strip_ref(f["targs"][0]) if f["targs"] else "Vec"
    if "Vec" not in t and "String" not in t and f["path"].endswith("extend"):
        return NotImplemented
    pl = a[0]

    def step(s, v):
        old = ip.read(s, pl.args[0], pl.args[1])
        ip.write(s, pl.args[0], pl.args[1], pushed(V(ip, s, old), mk("list", V(ip, s, v))))
    ip.iterate(to_iter(ip, a[1], st), st, step)
    return UNIT


@model("Vec::append")
def append(ip, a, st, e, f):
    x, y = V(ip, st, a[0]), V(ip, st, a[1])
    ip.write(st, a[0].args[0], a[0].args[1], concat(x, y))
    ip.write(st, a[1].args[0], a[1].args[1], mk("list"))
    return UNIT


@model("Vec::pop")
def pop(ip, a, st, e, f):
    v = V(ip, st, a[0])
    if v.op in ("list", "concat"):
        l = v if v.op == "list" else v.args[-1]
        if l.op == "list" and l.args:
            rest = mk("list", *l.args[:-1])
            ip.write(st, a[0].args[0], a[0].args[1], concat(*((v.args[:-1] if v.op == "concat" else ()) + (rest,))))
            return some(l.args[-1])
    L = length(v)
    ip.write(st, a[0].args[0], a[0].args[1], slice_(v, ZERO, max_(sub(L, ONE), ZERO)))
    return ite(pos(L, True), some(at(v, sub(L, ONE))), NONE)


@model("Vec::resize")
def resize(ip, a, st, e, f):
    v, n, x = V(ip, st, a[0]), V(ip, st, a[1]), V(ip, st, a[2])
    more = sub(n, length(v))
    if all(c >= 0 for c in as_poly(more).values()):
        r = concat(v, seq(fresh(), dom(ZERO, more), TRUE, x))
    else:
        r = mk("havoc", "Vec::resize", ZERO, v, n, x)
    ip.write(st, a[0].args[0], a[0].args[1], r)
    return UNIT


@model("Vec::truncate")
def truncate(ip, a, st, e, f):
    v = V(ip, st, a[0])
    ip.write(st, a[0].args[0], a[0].args[1], slice_(v, ZERO, min_(length(v), V(ip, st, a[1]))))
    return UNIT


@model("Vec::remove")
def vremove(ip, a, st, e, f):
    v, k = V(ip, st, a[0]), V(ip, st, a[1])
    L = length(v)
    parts = [slice_(v, ZERO, k)] if k is not ZERO else []
    if add(k, ONE) is not L:
        parts.append(slice_(v, add(k, ONE), L))
    ip.write(st, a[0].args[0], a[0].args[1], concat(*parts) if parts else mk("list"))
    return at(v, k)


@model("Vec::dedup")
def vdedup(ip, a, st, e, f):
    v = V(ip, st, a[0])
    ip.write(st, a[0].args[0], a[0].args[1], mk("call", "dedup", v))
    return UNIT


@model("slice::first")
def first(ip, a, st, e, f):
    v = V(ip, st, a[0])
    return ite(pos(length(v), True), some(at(v, ZERO)), NONE)


@model("slice::last")
def last(ip, a, st, e, f):
    v = V(ip, st, a[0])
    return ite(pos(length(v), True), some(at(v, sub(length(v), ONE))), NONE)


@model("slice::split_first", "slice::split_last")
def split_first(ip, a, st, e, f):
    v = V(ip, st, a[0])
    L = length(v)
    if f["path"].endswith("first"):
        x, rest = at(v, ZERO), slice_(v, ONE, L)
    else:
        x, rest = at(v, sub(L, ONE)), slice_(v, ZERO, sub(L, ONE))
    return ite(pos(L, True), some(mk("tuple", x, rest)), NONE)


@model("slice::split_at_mut")
def split_at_mut(ip, a, st, e, f):
    if a[0].op != "place":
        return NotImplemented
    v, k = V(ip, st, a[0]), V(ip, st, a[1])
    p = a[0].args
    return mk("tuple", mk("place", p[0], p[1] + (("s", ZERO, k),)), mk("place", p[0], p[1] + (("s", k, length(v)),)))


@model("Vec::insert")
def vinsert(ip, a, st, e, f):
    if a[0].op != "place":
        return NotImplemented
    v, k, x = V(ip, st, a[0]), V(ip, st, a[1]), V(ip, st, a[2])
    L = length(v)
    parts = [slice_(v, ZERO, k)] if k is not ZERO else []
    parts.append(mk("list", x))
    if k is not L:
        parts.append(slice_(v, k, L))
    ip.write(st, a[0].args[0], a[0].args[1], concat(*parts))
    return UNIT


@model("Vec::swap_remove")
def vswap_remove(ip, a, st, e, f):
    if a[0].op != "place":
        return NotImplemented
    v, k = V(ip, st, a[0]), V(ip, st, a[1])
    L = length(v)
    x, z = at(v, k), at(v, sub(L, ONE))
    ip.write(st, a[0].args[0], a[0].args[1] + (("i", k),), z)
    ip.write(st, a[0].args[0], a[0].args[1], slice_(V(ip, st, a[0]), ZERO, sub(L, ONE)))
    return x


@model("Vec::split_off")
def vsplit_off(ip, a, st, e, f):
    if a[0].op != "place":
        return NotImplemented
    v, k = V(ip, st, a[0]), V(ip, st, a[1])
    ip.write(st, a[0].args[0], a[0].args[1], slice_(v, ZERO, k))
    return slice_(v, k, length(v))


@model("slice::first_mut", "slice::last_mut")
def last_mut(ip, a, st, e, f):
    v = V(ip, st, a[0])
    if a[0].op != "place":
        return NotImplemented
    k = ZERO if f["path"].endswith("first_mut") else sub(length(v), ONE)
    return ite(pos(length(v), True), some(mk("place", a[0].args[0], a[0].args[1] + (("i", k),))), NONE)


@model("slice::get")
def sget(ip, a, st, e, f):
    v, k = V(ip, st, a[0]), V(ip, st, a[1])
    if k.op == "range":
        L = length(v)
        hi = L if k.args[1].op == "inf" else k.args[1]
        return ite(and_(le(k.args[0], hi, True), le(hi, L, True)), some(slice_(v, k.args[0], hi)), NONE)
    if k.op == "rangei":
        return NotImplemented
    return ite(lt(k, length(v), True), some(at(v, k)), NONE)


@model("slice::get_mut")
def sget_mut(ip, a, st, e, f):
    v, k = V(ip, st, a[0]), V(ip, st, a[1])
    if a[0].op != "place" or k.op == "range":
        return NotImplemented
    return ite(lt(k, length(v), True), some(mk("place", a[0].args[0], a[0].args[1] + (("i", k),))), NONE)


@model("slice::swap")
def sswap(ip, a, st, e, f):
    i, j = V(ip, st, a[1]), V(ip, st, a[2])
    v = V(ip, st, a[0])
    x, y = at(v, i), at(v, j)
    ip.write(st, a[0].args[0], a[0].args[1] + (("i", i),), y)
    ip.write(st, a[0].args[0], a[0].args[1] + (("i", j),), x)
    return UNIT


@model("slice::fill")
def fill(ip, a, st, e, f):
    v = V(ip, st, a[0])
    ip.write(st, a[0].args[0], a[0].args[1], seq(fresh(), dom(ZERO, length(v)), TRUE, V(ip, st, a[1])))
    return UNIT


@model("slice::copy_from_slice", "slice::clone_from_slice")
def copyfrom(ip, a, st, e, f):
    ip.write(st, a[0].args[0], a[0].args[1], V(ip, st, a[1]))
    return UNIT


@model("slice::split_at")
def split_at(ip, a, st, e, f):
    v, k = V(ip, st, a[0]), V(ip, st, a[1])
    return mk("tuple", slice_(v, ZERO, k), slice_(v, k, length(v)))


@model("slice::contains")
def scontains(ip, a, st, e, f):
    v, x = V(ip, st, a[0]), V(ip, st, a[1])
    if v.op == "list":
        r = FALSE
        for y in v.args:
            r = or_(r, eqb(x, y))
        return r
    i = fresh()
    return bind("any", i, dom(ZERO, length(v)), eqb(at(v, i), x))


@model("slice::concat", "slice::join")
def sconcat(ip, a, st, e, f):
    return mk("call", norm(f["path"]), *[V(ip, st, x) for x in a])


@model("slice::reverse")
def sreverse(ip, a, st, e, f):
    v = V(ip, st, a[0])
    ip.write(st, a[0].args[0], a[0].args[1], mk("rev", v))
    return UNIT


@model("Index::index")
def index(ip, a, st, e, f):
    v, k = V(ip, st, a[0]), V(ip, st, a[1])
    t = f["targs"][0] if f["targs"] else ""
    if "HashMap" in t or "BTreeMap" in t:
        r = mapget(v, k)
        if r.op == "mapget":
            r = vproj(mk("mapget", v, k, NONE), "Some", "0")
        return r
    return idx(v, k)


def idx(v, k):
    if k.op == "range":
        return slice_(v, k.args[0], k.args[1])
    if k.op == "rangei":
        return slice_(v, k.args[0], add(k.args[1], ONE))
    return at(v, k)


@model("IndexMut::index_mut")
def index_mut(ip, a, st, e, f):
    k = V(ip, st, a[1])
    if a[0].op != "place":
        return idx(V(ip, st, a[0]), k)
    if k.op == "range":
        hi = k.args[1]
        if hi.op == "inf" and k.args[0] is ZERO:
            return a[0]
        if hi.op == "inf":
            hi = length(V(ip, st, a[0]))
        return mk("place", a[0].args[0], a[0].args[1] + (("s", k.args[0], hi),))
    return mk("place", a[0].args[0], a[0].args[1] + (("i", k),))


@model("RangeInclusive::new")
def rinc(ip, a, st, e, f):
    return mk("rangei", V(ip, st, a[0]), V(ip, st, a[1]))


@model("Range::contains", "RangeInclusive::contains")
def rcontains(ip, a, st, e, f):
    r, x = V(ip, st, a[0]), V(ip, st, a[1])
    if r.op not in ("range", "rangei"):
        incl = "RangeInclusive" in f["path"]
        r = mk("rangei" if incl else "range", proj(r, "start"), proj(r, "end"))
        mark_num(r.args[0])
        mark_num(r.args[1])
    t = strip_ref(e["args"][1]["ty"]) if e else "f64"
    integer = t in INT_TYPES
    c = not_(lt(x, r.args[0], integer)) if not integer else le(r.args[0], x, True)
    if r.op == "rangei":
        return and_(c, le(x, r.args[1], integer))
    if r.args[1].op == "inf":
        return c
    return and_(c, lt(x, r.args[1], integer))


@model("Range::is_empty")
def range_is_empty(ip, a, st, e, f):
    r = V(ip, st, a[0])
    s, t = mark_num(proj(r, "start")), mark_num(proj(r, "end"))
    integer = bool(f["targs"]) and strip_ref(f["targs"][0]) in INT_TYPES
    return not_(lt(s, t, integer))


def cmp_key(ip, fn, st, mkelem):
    """key(i), direction for a comparator closure; mkelem(i) -> element"""
    i, j = fresh(), fresh()
    s = st.copy()
    ip.mute += 1
    r = ip.call_value(fn, [mkelem(i), mkelem(j)], s)
    ip.mute -= 1
    r = ip.deref(s, r)
    if r.op == "cmp":
        a, b = r.args[:2]
        if subst(a, {i: j}) is b and j not in fvs(a):
            return i, a, "asc"
        if subst(a, {j: i}) is b and i not in fvs(a):
            return j, a, "desc"
    return i, mk("cmpfn", bind("lam", i, bind("lam", j, r))), "?"


@model("slice::sort_by", "slice::sort_unstable_by", "slice::par_sort_by", "slice::par_sort_unstable_by")
def sort_by(ip, a, st, e, f):
    v = V(ip, st, a[0])
    i, key, d = cmp_key(ip, a[1], st, lambda k: at(v, k))
    ip.write(st, a[0].args[0], a[0].args[1], mk("sorted", v, bind("lam", i, key), d))
    return UNIT


@model("slice::sort", "slice::sort_unstable")
def sort(ip, a, st, e, f):
    v = V(ip, st, a[0])
    i = fresh()
    ip.write(st, a[0].args[0], a[0].args[1], mk("sorted", v, bind("lam", i, at(v, i)), "asc"))
    return UNIT


@model("slice::sort_by_key", "slice::sort_unstable_by_key", "slice::sort_by_cached_key")
def sort_by_key(ip, a, st, e, f):
    v = V(ip, st, a[0])
    i = fresh()
    k = ip.call_value(a[1], [at(v, i)], st)
    ip.write(st, a[0].args[0], a[0].args[1], mk("sorted", v, bind("lam", i, k), "asc"))
    return UNIT


def bsearch(ip, st, v, less, eq, i, d):
    """the position found by a binary search over a slice ordered by the comparison: the element
    comparing equal, else the number of smaller elements.  The comparison is recorded as an event."""
    ip.event(st, "bsearch", "binary_search", (v, bind("lam", i, less), bind("lam", i, eq)))
    r = "core::result::Result"
    return ite(bind("any", i, d, eq), variant(r, "Ok", bind("find", i, d, eq)), variant(r, "Err", sum_(i, d, less)))


@model("slice::binary_search_by", "slice::binary_search_by_key", "slice::binary_search", "VecDeque::binary_search_by", "VecDeque::binary_search_by_key")
def bsearch_(ip, a, st, e, f):
    v = V(ip, st, a[0])
    n = norm(f["path"])
    i = fresh()
    d = dom(ZERO, length(v))
    ip.mute += 1
    s = st.copy()
    if n.endswith("_by"):
        c = ip.deref(s, ip.call_value(a[1], [at(v, i)], s))
    elif n.endswith("_by_key"):
        c = mk("cmp", ip.deref(s, ip.call_value(a[2], [at(v, i)], s)), V(ip, st, a[1]), TRUE)
    else:
        c = mk("cmp", at(v, i), V(ip, st, a[1]), TRUE)
    ip.mute -= 1
    return bsearch(ip, st, v, is_variant(c, "Less"), is_variant(c, "Equal"), i, d)


@model("slice::partition_point", "VecDeque::partition_point")
def ppoint(ip, a, st, e, f):
    v = V(ip, st, a[0])
    i = fresh()
    d = dom(ZERO, length(v))
    ip.mute += 1
    s = st.copy()
    c = ip.deref(s, ip.call_value(a[1], [at(v, i)], s))
    ip.mute -= 1
    ip.event(st, "bsearch", "partition_point", (v, bind("lam", i, c)))
    return ite(bind("any", i, d, not_(c)), bind("find", i, d, not_(c)), length(v))


@model("Vec::retain", "VecDeque::retain")
def vretain(ip, a, st, e, f):
    v = V(ip, st, a[0])
    i = fresh()
    ip.mute += 1
    s = st.copy()
    c = ip.call_value(a[1], [at(v, i)], s)
    ip.mute -= 1
    ip.write(st, a[0].args[0], a[0].args[1], seq(i, dom(ZERO, length(v)), c if is_bool(c) or c.op == "poly" else mk("bool", c), at(v, i)))
    return UNIT


# ------------------------------------------------------------------ iterators
def to_iter(ip, v, st):
    if v.op == "iter":
        return v
    if v.op == "place":
        x = V(ip, st, v)
        if x.op == "iter":
            return x
        if x.op in ("range", "rangei"):
            return to_iter(ip, x, st)
        return mk("iter", "mut", v)
    if v.op == "range":
        return mk("iter", "range", v.args[0], v.args[1])
    if v.op == "rangei":
        return mk("iter", "range", v.args[0], add(v.args[1], ONE))
    if v.op == "variant" and v.args[0] == "Option":
        return mk("iter", "seq", mk("list", *[x for _, x in v.args[2]]))
    if v.op == "ite" and v.args[1].op == "iter" and v.args[2].op == "iter":
        return mk("iter", "ite", v.args[0], dense(ip, v.args[1], st), dense(ip, v.args[2], st))
    return mk("iter", "seq", v)


def dense(ip, it, st):
    """an iterator whose positions are ranks: a filtered one becomes the vector of what passes"""
    if it.args[0] == "ite":
        return it
    if it.args[0] == "skip":
        b = dense(ip, it.args[1], st)
        return it if b is it.args[1] else mk("iter", "skip", b, it.args[2])
    i = fresh()
    ip.mute += 1
    s = st.copy()
    d = domof(ip, it, s)
    g, v = gen(ip, it, i, s)
    v = V(ip, s, v)
    ip.mute -= 1
    if g is TRUE:
        return it
    return mk("iter", "dense", seq(i, d, g, v))


MAPTY = r"^(&(mut )?)?std::collections::(Hash|BTree)"


@model("IntoIterator::into_iter", "slice::iter", "IntoParallelRefIterator::par_iter", "IntoParallelIterator::into_par_iter",
       "Vec::drain", "Option::iter", "ParallelBridge::par_bridge")
def into_iter(ip, a, st, e, f):
    t = (f.get("targs") or [""])[0]
    if norm(f["path"]) in ("slice::iter", "Vec::drain", "Option::iter"):
        t = ""      # there the type argument is that of the elements
    if re.match(MAPTY + "Map<", t):
        return mk("iter", "hm", V(ip, st, a[0])) if not t.startswith("&mut") else mk("iter", "hmm", a[0])
    if re.match(MAPTY + "Set<", t):
        return mk("iter", "seq", mk("call", "map_keys", V(ip, st, a[0])))
    if f["path"].endswith("drain"):
        v = V(ip, st, a[0])
        ip.write(st, a[0].args[0], a[0].args[1], mk("list"))
        return mk("iter", "seq", v)
    return to_iter(ip, a[0], st)


@model("slice::iter_mut", "IntoParallelRefMutIterator::par_iter_mut")
def iter_mut(ip, a, st, e, f):
    if norm(f["path"]) != "slice::iter_mut" and re.match(MAPTY + "Map<", (f.get("targs") or [""])[0]) and a[0].op == "place":
        return mk("iter", "hmm", a[0])
    return mk("iter", "mut", a[0]) if a[0].op == "place" else to_iter(ip, a[0], st)


@model("HashMap::iter", "HashMap::into_iter")
def hm_iter(ip, a, st, e, f):
    return mk("iter", "hm", V(ip, st, a[0]))


@model("HashMap::values", "HashMap::into_values")
def hm_values(ip, a, st, e, f):
    return mk("iter", "seq", mk("call", "map_values", V(ip, st, a[0])))


@model("HashMap::keys", "HashMap::into_keys", "HashSet::iter")
def hm_keys(ip, a, st, e, f):
    return mk("iter", "seq", mk("call", "map_keys", V(ip, st, a[0])))


def lazy(name, *paths):
    @model(*paths)
    def g(ip, a, st, e, f):
        return mk("iter", name, to_iter(ip, a[0], st), *[to_iter(ip, x, st) if name in ("zip", "chain") else (x if x.op in ("clo", "fn") else V(ip, st, x)) for x in a[1:]])
    return g


lazy("map", "Iterator::map", "ParallelIterator::map")
lazy("filter", "Iterator::filter", "ParallelIterator::filter")
lazy("filter_map", "Iterator::filter_map", "ParallelIterator::filter_map")
lazy("enumerate", "Iterator::enumerate", "IndexedParallelIterator::enumerate")
lazy("zip", "Iterator::zip", "IndexedParallelIterator::zip", "iter::zip")
lazy("chain", "Iterator::chain", "ParallelIterator::chain")
lazy("skip", "Iterator::skip", "IndexedParallelIterator::skip")
lazy("take", "Iterator::take", "IndexedParallelIterator::take")
lazy("rev", "Iterator::rev", "IndexedParallelIterator::rev")
lazy("inspect", "Iterator::inspect")
lazy("flat_map", "Iterator::flat_map", "ParallelIterator::flat_map", "ParallelIterator::flat_map_iter")
lazy("flatten", "Iterator::flatten")
lazy("take_while", "Iterator::take_while")
lazy("step_by", "Iterator::step_by")
lazy("map_while", "Iterator::map_while")


@model("iter::repeat", "iter::repeat_n")
def repeat(ip, a, st, e, f):
    r = mk("iter", "repeat", V(ip, st, a[0]))
    if len(a) > 1:
        r = mk("iter", "take", r, V(ip, st, a[1]))
    return r


@model("iter::once")
def once(ip, a, st, e, f):
    return mk("iter", "seq", mk("list", V(ip, st, a[0])))


@model("iter::empty")
def empty(ip, a, st, e, f):
    return mk("iter", "seq", mk("list"))


@model("slice::windows", "slice::chunks", "slice::chunks_exact", "slice::par_chunks", "str::split_whitespace", "str::split", "str::lines", "BufRead::lines",
       "Distribution::sample_iter", "str::chars", "slice::par_windows")
def opaque_iter(ip, a, st, e, f):
    n = norm(f["path"])
    vals = [V(ip, st, x) for x in a]
    if n in ("slice::windows", "slice::par_windows") and is_num(vals[1]):
        k = int(numval(vals[1]))
        v = vals[0]
        L = length(v)
        i = fresh()
        return mk("iter", "seq", seq(i, dom(ZERO, sub(L, num(k - 1))), TRUE, mk("list", *[at(v, add(i, num(q))) for q in range(k)])))
    if n == "BufRead::lines":
        ip.event(st, "call", f["path"], vals)
    for x in a:
        if x.op == "place":
            ip.write(st, x.args[0], x.args[1], mk("havoc", n, fresh("h")))
    return mk("iter", "seq", mk("call", n, *vals))


def domof(ip, it, st):
    d = domof_(ip, it, st)
    if d.op == "dom" and d.args:
        n = ip.canonlen(d.args[1])
        if n is not d.args[1]:
            return dom(d.args[0], n)
    return d


def domof_(ip, it, st):
    k = it.args[0]
    if k == "seq":
        v = it.args[1]
        if v.op == "seq":
            d = v.args[1]
            if d.args and d.op == "dom":
                return dom(ZERO, sub(d.args[1], d.args[0])) if d.args[0] is not ZERO else d
            return d
        return dom(ZERO, length(v))
    if k == "dense":
        return dom(ZERO, length(it.args[1]))
    if k == "ite":
        a, b = domof(ip, it.args[2], st), domof(ip, it.args[3], st)
        return dom(ZERO, ite(it.args[1], a.args[1], b.args[1]))
    if k == "mut":
        return dom(ZERO, length(V(ip, st, it.args[1])))
    if k == "range":
        hi = it.args[2]
        if hi.op == "inf":
            return dom(ZERO, hi)
        return dom(ZERO, sub(hi, it.args[1]))
    if k == "hm":
        return dom(ZERO, mk("len", it.args[1]))
    if k in ("hmm", "hmmv"):
        return dom(ZERO, mk("len", V(ip, st, it.args[1])))
    if k in ("map", "filter", "filter_map", "enumerate", "rev", "inspect", "flat_map", "flatten", "take_while", "map_while"):
        return domof(ip, it.args[1], st)
    if k == "zip":
        d1, d2 = domof(ip, it.args[1], st), domof(ip, it.args[2], st)
        return zipdom(ip, d1, d2)
    if k == "skip":
        d = domof(ip, it.args[1], st)
        hi = d.args[1] if d.args else mk("dlen", d)
        if hi.op == "inf":
            return d
        return dom(ZERO, max_(sub(hi, it.args[2]), ZERO) if is_num(hi) else sub(hi, it.args[2]))
    if k == "take":
        d = domof(ip, it.args[1], st)
        hi = d.args[1] if d.args else mk("dlen", d)
        if hi.op == "inf":
            return dom(ZERO, it.args[2])
        return dom(ZERO, min_(hi, it.args[2]))
    if k == "repeat":
        return dom(ZERO, mk("inf"))
    if k == "step_by":
        d = domof(ip, it.args[1], st)
        return dom(ZERO, mk("ceil", div(d.args[1], it.args[2])))
    if k == "chain":
        d1, d2 = domof(ip, it.args[1], st), domof(ip, it.args[2], st)
        return dom(ZERO, add(d1.args[1], d2.args[1]))
    return dom(ZERO, mk("len", it))


def zipdom(ip, d1, d2):
    h1, h2 = d1.args[1], d2.args[1]
    if h1 is h2 or h2.op == "inf":
        return d1
    if h1.op == "inf":
        return d2
    return dom(ZERO, ip.canonlen(min_(h1, h2)))


def gen(ip, it, i, st):
    """(guard, element) of the iterator at position i; runs stage closures in st"""
    k = it.args[0]
    if k == "seq":
        v = it.args[1]
        if v.op == "seq":
            _, (d, g, e) = open_(v, i)
            if d.op == "dom" and d.args and d.args[0] is not ZERO:
                _, (d, g, e) = open_(v, add(i, d.args[0]))
            return g, e
        return TRUE, at(v, i)
    if k == "dense":
        return TRUE, at(it.args[1], i)
    if k == "ite":
        (g1, v1), (g2, v2) = gen(ip, it.args[2], i, st), gen(ip, it.args[3], i, st)
        c = it.args[1]
        return add(mul(c, g1), mul(not_(c), g2)), ite(c, V(ip, st, v1), V(ip, st, v2))
    if k == "mut":
        p = it.args[1]
        return TRUE, mk("place", p.args[0], p.args[1] + (("i", i),))
    if k == "range":
        return TRUE, add(it.args[1], i)
    if k in ("hmm", "hmmv"):
        p = it.args[1]
        key = at(mk("call", "map_keys", V(ip, st, p)), i)
        if k == "hmmv":
            return TRUE, mk("place", p.args[0], p.args[1] + (("m", key, NONE),))
        return TRUE, mk("tuple", key, mk("place", p.args[0], p.args[1] + (("m", key, NONE),)))
    if k == "hm":
        keys = mk("call", "map_keys", it.args[1])
        return TRUE, mk("tuple", at(keys, i), at(mk("call", "map_values", it.args[1]), i))
    if k == "map":
        g, v = gen(ip, it.args[1], i, st)
        return g, ip.call_value(it.args[2], [v], st)
    if k == "inspect":
        g, v = gen(ip, it.args[1], i, st)
        ip.call_value(it.args[2], [v], st)
        return g, v
    if k == "filter":
        g, v = gen(ip, it.args[1], i, st)
        c = ip.deref(st, ip.call_value(it.args[2], [v], st))
        return and_(g, c), v
    if k == "filter_map":
        g, v = gen(ip, it.args[1], i, st)
        r = ip.call_value(it.args[2], [v], st)
        c = is_variant(r, "Some")
        return and_(g, c), vproj(r, "Some", "0")
    if k == "enumerate":
        g, v = gen(ip, it.args[1], i, st)
        pos_ = i
        if g is not TRUE:
            pos_ = mark_num(mk("call", "rank", bind("lam", i, g), i))
        return g, mk("tuple", pos_, v)
    if k == "zip":
        g1, a = gen(ip, it.args[1], i, st)
        g2, b = gen(ip, it.args[2], i, st)
        if g1 is not TRUE or g2 is not TRUE:
            if g1 is not g2:
                # zip after filter: positions no longer line up
                return TRUE, mk("tuple", mk("call", "zipfiltered", a), mk("call", "zipfiltered", b))
        return g1, mk("tuple", a, b)
    if k == "skip":
        return compacted(ip, it, *gen(ip, it.args[1], add(i, it.args[2]), st), i)
    if k == "step_by":
        return compacted(ip, it, *gen(ip, it.args[1], mul(i, it.args[2]), st), i)
    if k == "take":
        return compacted(ip, it, *gen(ip, it.args[1], i, st), i)
    if k == "rev":
        d = domof(ip, it.args[1], st)
        if d.args and d.args[1].op != "inf":
            return gen(ip, it.args[1], sub(sub(d.args[1], ONE), i), st)
    if k == "repeat":
        return TRUE, it.args[1]
    ip.note("iter " + str(k))
    return TRUE, at(mk("call", "iter_" + str(k), *[x for x in it.args[1:] if isinstance(x, T)]), i)


def compacted(ip, it, g, v, i):
    """positions after a filter are ranks, not indices"""
    if g is TRUE:
        return g, v
    ip.note("position after filter")
    return TRUE, mk("call", "compacted", v, g, i)


def split_flat(it):
    """an iterator built on flat_map/flatten: (outer iterator, function or None, rebuild inner stages)"""
    if it.op != "iter":
        return None
    k = it.args[0]
    if k == "flat_map":
        return it.args[1], it.args[2], lambda x: x
    if k == "flatten":
        return it.args[1], None, lambda x: x
    if k in ("map", "filter", "filter_map", "inspect"):
        r = split_flat(it.args[1])
        if r is None:
            return None
        src, f, w = r
        return src, f, lambda x: mk("iter", k, w(x), *it.args[2:])
    return None


def explicit(ip, it, st):
    """elements when the iterator ranges over a short explicit list"""
    k = it.args[0]
    if k == "seq":
        v = it.args[1]
        if v.op == "list" and len(v.args) <= 32:
            return list(v.args)
        return None
    if k == "range" and is_num(it.args[1]) and is_num(it.args[2]):
        a, b = numval(it.args[1]), numval(it.args[2])
        if b - a <= 8:
            return [num(x) for x in range(int(a), int(b))]
        return None
    if k == "enumerate":
        x = explicit(ip, it.args[1], st)
        return None if x is None else [mk("tuple", num(n), v) for n, v in enumerate(x)]
    if k == "rev":
        x = explicit(ip, it.args[1], st)
        return None if x is None else x[::-1]
    if k == "map":
        x = explicit(ip, it.args[1], st)
        return None if x is None else [ip.call_value(it.args[2], [v], st) for v in x]
    if k == "zip":
        x, y = explicit(ip, it.args[1], st), explicit(ip, it.args[2], st)
        if x is None or y is None:
            return None
        return [mk("tuple", p, q) for p, q in zip(x, y)]
    if k == "mut":
        v = V(ip, st, it.args[1])
        if v.op == "list" and len(v.args) <= 32:
            p = it.args[1]
            return [mk("place", p.args[0], p.args[1] + (("i", num(n)),)) for n in range(len(v.args))]
    return None


def is_singleton_chain(it):
    return False


def accumulate(ip, st, it, init, step):
    root = ip.temp(st, init)
    ip.iterate(it, st, lambda s, v: step(s, root, v))
    if st.dead:
        return NEVER
    return st.store[root]


@model("Iterator::sum", "ParallelIterator::sum")
def isum(ip, a, st, e, f):
    it = to_iter(ip, a[0], st)

    def step(s, r, v):
        v = V(ip, s, v)
        mark_num(v)
        s.store[r] = add(s.store[r], v)
    return accumulate(ip, st, it, ZERO, step)


@model("Iterator::product", "ParallelIterator::product")
def iprod(ip, a, st, e, f):
    it = to_iter(ip, a[0], st)

    def step(s, r, v):
        v = V(ip, s, v)
        mark_num(v)
        s.store[r] = mul(s.store[r], v)
    return accumulate(ip, st, it, ONE, step)


@model("Iterator::count", "ParallelIterator::count")
def icount(ip, a, st, e, f):
    it = to_iter(ip, a[0], st)

    def step(s, r, v):
        s.store[r] = add(s.store[r], ONE)
    return accumulate(ip, st, it, ZERO, step)


@model("Iterator::fold")
def ifold(ip, a, st, e, f):
    it = to_iter(ip, a[0], st)
    init = V(ip, st, a[1])

    def step(s, r, v):
        s.store[r] = ip.call_value(a[2], [s.store[r], v], s)
    mark(ip, e, init)
    return accumulate(ip, st, it, init, step)


@model("Iterator::reduce")
def ireduce(ip, a, st, e, f):
    it = to_iter(ip, a[0], st)
    # max/min reductions
    i, j = fresh(), fresh()
    s = st.copy()
    ip.mute += 1
    g, x = gen(ip, it, i, s)
    _, y = gen(ip, it, j, s)
    x, y = V(ip, s, x), V(ip, s, y)
    mark_num(x), mark_num(y)
    r = ip.call_value(a[1], [x, y], s)
    ip.mute -= 1
    d = domof(ip, it, st)
    if r is max_(x, y) or r is min_(x, y):
        op = "maxof" if r is max_(x, y) else "minof"
        if g is not TRUE:
            return NotImplemented
        L = sub(d.args[1], d.args[0])
        return ite(pos(L, True), some(bind(op, i, d, x)), NONE)
    if r is add(x, y):
        L = sub(d.args[1], d.args[0])
        return ite(pos(L, True), some(sum_(i, d, mul(g, x))), NONE)
    # the element with the best key
    from rulelib import equal
    for path in [()] + [(str(c),) for c in range(len(x.args) if x.op == "tuple" else 0)] + [(str(c), str(d2)) for c in range(len(x.args) if x.op == "tuple" else 0)
                                                                                          for d2 in range(len(x.args[c].args) if x.args[c].op == "tuple" else 0)]:
        kx, ky = x, y
        for c in path:
            kx, ky = proj(kx, c), proj(ky, c)
        if kx.op in ("tuple", "str", "list") or not numericish(kx):
            continue
        for want, c in (("max", lt(ky, kx)), ("max", le(ky, kx)), ("min", lt(kx, ky)), ("min", le(kx, ky))):
            if equal(r, ite(c, x, y)):
                return bind("argbest", i, d, g, kx, x, (want, False))
    return mk("call", "reduce", bind("lam", i, g, x), bind("lam", i, bind("lam", j, r)))


@model("ParallelIterator::reduce")
def preduce(ip, a, st, e, f):
    it = to_iter(ip, a[0], st)
    ident = ip.call_value(a[1], [], st)

    def step(s, r, v):
        s.store[r] = ip.call_value(a[2], [s.store[r], V(ip, s, v)], s)
    return accumulate(ip, st, it, ident, step)


@model("Iterator::for_each", "ParallelIterator::for_each")
def for_each(ip, a, st, e, f):
    it = to_iter(ip, a[0], st)
    ip.iterate(it, st, lambda s, v: ip.call_value(a[1], [v], s))
    return UNIT


@model("Iterator::try_for_each")
def try_for_each(ip, a, st, e, f):
    it = to_iter(ip, a[0], st)
    isopt = "Result" in (e["ty"] if e else "")
    out = ip.temp(st, mk("uninit"))

    ty = e["ty"] if e else ""
    good = "Ok" if "Result<" in ty else ("Some" if "Option<" in ty else "Continue")
    lab = object()

    def step(s, v):
        r = ip.call_value(a[1], [v], s)
        if s.dead:
            return

        def stop(s2):
            s2.store[out] = r
            ip.loopexits[-1][1].append((s2.pc, UNIT, s2.copy()))
            s2.dead = True
            return NEVER
        ip.branch(s, is_variant(r, good), lambda s2: UNIT, stop)
    ip.iterate(it, st, step, labels=[lab])
    if st.dead:
        return NEVER
    return mk("call", "try_for_each", *[x for x in (V(ip, st, st.store[out]),)])


@model("Iterator::try_fold")
def try_fold(ip, a, st, e, f):
    it = to_iter(ip, a[0], st)
    ty = e["ty"] if e else ""
    head = ty.split("<")[0].split("::")[-1]
    good = {"Result": "Ok", "Option": "Some", "ControlFlow": "Continue"}.get(head)
    if good is None:
        return NotImplemented
    acc = ip.temp(st, V(ip, st, a[1]))
    out = ip.temp(st, mk("uninit"))
    lab = object()

    def step(s, v):
        r = ip.deref(s, ip.call_value(a[2], [s.store[acc], v], s))
        if s.dead:
            return

        def stop(s2):
            s2.store[out] = some(r)
            ip.loopexits[-1][1].append((s2.pc, UNIT, s2.copy()))
            s2.dead = True
            return NEVER

        def go(s2):
            s2.store[acc] = vproj(r, good, "0")
            return UNIT
        ip.branch(s, is_variant(r, good), go, stop)
    st.store[out] = NONE
    ip.iterate(it, st, step, labels=[lab])
    if st.dead:
        return NEVER
    o = st.store[out]
    return ite(is_variant(o, "Some"), vproj(o, "Some", "0"), variant(head, good, st.store[acc]))


@model("Iterator::eq", "Iterator::ne")
def ieq(ip, a, st, e, f):
    x, y = to_iter(ip, a[0], st), to_iter(ip, a[1], st)
    d1, d2 = domof(ip, x, st), domof(ip, y, st)
    i = fresh()
    ip.mute += 1
    s = st.copy()
    (g1, v1), (g2, v2) = gen(ip, x, i, s), gen(ip, y, i, s)
    v1, v2 = V(ip, s, v1), V(ip, s, v2)
    ip.mute -= 1
    if g1 is not TRUE or g2 is not TRUE:
        return NotImplemented
    r = and_(eqb(d1.args[1], d2.args[1]), not_(bind("any", i, d1, not_(eqb(v1, v2)))))
    return r if f["path"].endswith("eq") else not_(r)


@model("Iterator::any", "ParallelIterator::any")
def iany(ip, a, st, e, f):
    it = to_iter(ip, a[0], st)

    def step(s, r, v):
        s.store[r] = or_(s.store[r], V(ip, s, ip.call_value(a[1], [v], s)))
    return accumulate(ip, st, it, FALSE, step)


@model("Iterator::all", "ParallelIterator::all")
def iall(ip, a, st, e, f):
    it = to_iter(ip, a[0], st)

    def step(s, r, v):
        s.store[r] = and_(s.store[r], V(ip, s, ip.call_value(a[1], [v], s)))
    return accumulate(ip, st, it, TRUE, step)


@model("Iterator::max_by", "ParallelIterator::max_by", "Iterator::min_by", "ParallelIterator::min_by")
def imaxby(ip, a, st, e, f):
    it = to_iter(ip, a[0], st)
    d = domof(ip, it, st)
    want = "max" if "max_by" in f["path"] else "min"
    s = st.copy()
    guard = [TRUE]

    def elem(i):
        g, v = gen(ip, it, i, s)
        guard[0] = g
        return V(ip, s, v)
    i, key, direction = cmp_key(ip, a[1], s, elem)
    if direction == "desc":
        want = "min" if want == "max" else "max"
    ip.mute += 1
    g, v = gen(ip, it, i, st.copy())
    ip.mute -= 1
    # make side effects / events of the stages visible once
    k = fresh()
    ip.iterate(it, st, lambda s2, v2: None)
    return bind("argbest", i, d, g, key, V(ip, st, v), (want, direction == "?"))


@model("Iterator::max_by_key", "Iterator::min_by_key", "ParallelIterator::max_by_key", "ParallelIterator::min_by_key")
def imaxbykey(ip, a, st, e, f):
    it = to_iter(ip, a[0], st)
    d = domof(ip, it, st)
    i = fresh()
    s = st.copy()
    ip.mute += 1
    g, v = gen(ip, it, i, s)
    key = V(ip, s, ip.call_value(a[1], [v], s))
    ip.mute -= 1
    return bind("argbest", i, d, g, key, V(ip, s, v), ("max" if "max_by" in f["path"] else "min", False))


@model("Iterator::max", "Iterator::min", "ParallelIterator::max", "ParallelIterator::min")
def imax(ip, a, st, e, f):
    it = to_iter(ip, a[0], st)
    d = domof(ip, it, st)
    i = fresh()
    ip.mute += 1
    g, v = gen(ip, it, i, st.copy())
    ip.mute -= 1
    v = V(ip, st, v)
    mark_num(v)
    op = "maxof" if norm(f["path"]).endswith("max") else "minof"
    if g is not TRUE:
        return bind("argbest", i, d, g, v, v, (op[:3], False))
    return ite(pos(sub(d.args[1], d.args[0]), True), some(bind(op, i, d, v)), NONE)


@model("Iterator::find", "Iterator::position", "Iterator::find_map", "ParallelIterator::find_first", "ParallelIterator::find_any", "Iterator::rposition")
def ifind(ip, a, st, e, f):
    it = to_iter(ip, a[0], st)
    n = norm(f["path"])
    d = domof(ip, it, st)
    i = fresh()
    ip.mute += 1
    s = st.copy()
    g, v = gen(ip, it, i, s)
    c = ip.call_value(a[1], [v], s)
    ip.mute -= 1
    if n.endswith("find_map"):
        val = vproj(c, "Some", "0")
        c = is_variant(c, "Some")
    elif "position" in n:
        val = i
    else:
        val = V(ip, s, v)
    c = and_(g, c)
    fi = bind("find", i, d, c)
    if n.endswith("rposition"):
        return NotImplemented
    return ite(bind("any", i, d, c), some(subst(val, {i: fi})), NONE)


@model("Iterator::last")
def ilast(ip, a, st, e, f):
    it = to_iter(ip, a[0], st)
    d = domof(ip, it, st)
    L = sub(d.args[1], d.args[0])
    g, v = gen(ip, it, sub(L, ONE), st)
    return ite(pos(L, True), some(V(ip, st, v)), NONE)


@model("Iterator::nth")
def inth(ip, a, st, e, f):
    it = to_iter(ip, a[0], st)
    k = V(ip, st, a[1])
    d = domof(ip, it, st)
    g, v = gen(ip, it, k, st)
    if a[0].op == "place":
        ip.write(st, a[0].args[0], a[0].args[1], mk("iter", "skip", it, add(k, ONE)))
    return ite(lt(k, sub(d.args[1], d.args[0]), True), some(V(ip, st, v)), NONE)


@model("Iterator::next")
def inext(ip, a, st, e, f):
    it = dense(ip, to_iter(ip, a[0], st), st)
    d = domof(ip, it, st)
    g, v = gen(ip, it, ZERO, st)
    if a[0].op == "place":
        ip.write(st, a[0].args[0], a[0].args[1], mk("iter", "skip", it, ONE))
    if g is not TRUE:
        return mk("call", "next_filtered", v)
    return ite(pos(sub(d.args[1], d.args[0]), True), some(v), NONE)


@model("Iterator::unzip", "ParallelIterator::unzip")
def iunzip(ip, a, st, e, f):
    it = to_iter(ip, a[0], st)
    r1, r2 = ip.temp(st, mk("list")), ip.temp(st, mk("list"))

    def step(s, v):
        v = V(ip, s, v)
        s.store[r1] = pushed(s.store[r1], mk("list", proj(v, "0")))
        s.store[r2] = pushed(s.store[r2], mk("list", proj(v, "1")))
    ip.iterate(it, st, step)
    if st.dead:
        return NEVER
    return mk("tuple", st.store[r1], st.store[r2])


@model("Iterator::partition")
def ipartition(ip, a, st, e, f):
    it = to_iter(ip, a[0], st)
    r1, r2 = ip.temp(st, mk("list")), ip.temp(st, mk("list"))

    def step(s, v):
        c = ip.call_value(a[1], [v], s)
        v = V(ip, s, v)

        def put(r):
            def g(s2):
                s2.store[r] = pushed(s2.store[r], mk("list", v))
                return UNIT
            return g
        ip.branch(s, c, put(r1), put(r2))
    ip.iterate(it, st, step)
    if st.dead:
        return NEVER
    return mk("tuple", st.store[r1], st.store[r2])


@model("Iterator::collect", "ParallelIterator::collect", "FromIterator::from_iter", "ParallelIterator::collect_into_vec")
def collect(ip, a, st, e, f):
    it = to_iter(ip, a[0], st)
    ty = e["ty"] if e else "Vec<"
    head = ty.split("<")[0].split("::")[-1]
    resulty = head in ("Result", "Option")
    inner = ty

    def step(s, r, v):
        s.store[r] = pushed(s.store[r], mk("list", V(ip, s, v)))
    v = accumulate(ip, st, it, mk("list"), step)
    if head in ("Vec", "Box", "Rc", "Arc", "VecDeque"):
        return v
    if resulty:
        if v.op == "seq":
            i, (d, g, x) = open_(v)
            nm = "Ok" if head == "Result" else "Some"
            bad = bind("any", i, d, and_(g, not_(is_variant(x, nm))))
            good = seq(i, d, g, vproj(x, nm, "0"))
            if head == "Result":
                fi = bind("find", i, d, and_(g, not_(is_variant(x, nm))))
                return ite(not_(bad), variant("Result", "Ok", collected(good, ty)), variant("Result", "Err", subst(vproj(x, "Err", "0"), {i: fi})))
            return ite(not_(bad), some(good), NONE)
        return mk("call", "collect_" + head, v)
    return collected(v, ty)


def collected(v, ty):
    m = re.search(r"(HashMap|HashSet|BTreeMap|BTreeSet|String|FixedBitSet)", ty)
    if m and "Vec<" not in ty.split(m.group(1))[0]:
        return mk("call", "collect_" + m.group(1).replace("BTree", "Hash"), v)
    return v


# ---------------------------------------------------------------------- maps
@model("HashMap::new", "HashMap::with_capacity", "HashSet::new", "HashSet::with_capacity", "BTreeMap::new")
def hnew(ip, a, st, e, f):
    return mk("mapempty")


@model("HashMap::get")
def hget(ip, a, st, e, f):
    m, k = V(ip, st, a[0]), V(ip, st, a[1])
    r = mapget(m, k)
    if m.op == "mapset" and m.args[1] is k:
        return some(r)
    return r if r.op in ("mapget",) else some(r)


@model("HashMap::get_mut")
def hget_mut(ip, a, st, e, f):
    m, k = V(ip, st, a[0]), V(ip, st, a[1])
    if a[0].op != "place":
        return NotImplemented
    c = is_variant(mk("mapget", m, k, NONE), "Some") if not (m.op == "mapset" and m.args[1] is k) else TRUE
    return ite(c, some(mk("place", a[0].args[0], a[0].args[1] + (("m", k, NONE),))), NONE)


@model("HashMap::iter_mut")
def hiter_mut(ip, a, st, e, f):
    return mk("iter", "hmm", a[0]) if a[0].op == "place" else NotImplemented


@model("HashMap::values_mut")
def hvalues_mut(ip, a, st, e, f):
    return mk("iter", "hmmv", a[0]) if a[0].op == "place" else NotImplemented


@model("HashMap::remove", "HashSet::remove")
def hremove(ip, a, st, e, f):
    m, k = V(ip, st, a[0]), V(ip, st, a[1])
    if a[0].op != "place":
        return NotImplemented
    ip.write(st, a[0].args[0], a[0].args[1], mk("mapdel", m, k))
    r = mk("mapget", m, k, NONE)
    return is_variant(r, "Some") if re.search("(HashSet|BTreeSet)", f["path"]) else r


@model("HashMap::insert")
def hinsert(ip, a, st, e, f):
    m, k = V(ip, st, a[0]), V(ip, st, a[1])
    if a[0].op != "place":
        return NotImplemented
    ip.write(st, a[0].args[0], a[0].args[1], mapset(m, k, a[2]))
    return mk("mapget", m, k, NONE)


@model("HashSet::insert")
def hsinsert(ip, a, st, e, f):
    m, k = V(ip, st, a[0]), V(ip, st, a[1])
    if a[0].op != "place":
        return NotImplemented
    ip.write(st, a[0].args[0], a[0].args[1], mapset(m, k, UNIT))
    return not_(is_variant(mk("mapget", m, k, NONE), "Some"))


@model("HashSet::retain")
def hsretain(ip, a, st, e, f):
    """the keys that pass stay; one that is asked may change nothing else"""
    if a[0].op != "place":
        return NotImplemented
    m = V(ip, st, a[0])
    k = fresh()
    s = st.copy()
    before = dict(s.store)
    ip.mute += 1
    c = V(ip, s, ip.call_value(a[1], [k], s))
    ip.mute -= 1
    if s.dead or any(s.store.get(r) is not v for r, v in before.items()):
        return NotImplemented
    ip.write(st, a[0].args[0], a[0].args[1], mk("call", "setfilter", m, bind("lam", k, c)))
    return UNIT


# bit sets are lists of truth values
@model("FixedBitSet::with_capacity")
def bsnew(ip, a, st, e, f):
    return seq(fresh(), dom(ZERO, V(ip, st, a[0])), TRUE, FALSE)


@model("FixedBitSet::put", "FixedBitSet::insert", "FixedBitSet::set")
def bsput(ip, a, st, e, f):
    if a[0].op != "place":
        return NotImplemented
    m, k = V(ip, st, a[0]), V(ip, st, a[1])
    v = V(ip, st, a[2]) if f["path"].endswith("::set") else TRUE
    ip.write(st, a[0].args[0], a[0].args[1], upd(m, k, v))
    return at(m, k) if f["path"].endswith("::put") else UNIT


@model("FixedBitSet::contains")
def bshas(ip, a, st, e, f):
    return at(V(ip, st, a[0]), V(ip, st, a[1]))


@model("FixedBitSet::len")
def bslen(ip, a, st, e, f):
    return length(V(ip, st, a[0]))


@model("HashMap::contains_key", "HashSet::contains")
def hcontains(ip, a, st, e, f):
    return is_variant(mk("mapget", V(ip, st, a[0]), V(ip, st, a[1]), NONE), "Some")


@model("HashMap::entry")
def hentry(ip, a, st, e, f):
    return mk("entry", a[0], V(ip, st, a[1]))


@model("Entry::and_modify")
def hand_modify(ip, a, st, e, f):
    if a[0].op != "entry" or a[0].args[0].op != "place":
        return NotImplemented
    return mk("entrymod", *a[0].args, a[1])


def modified(ip, a, st, e, f):
    """`entry(k).and_modify(f).or_insert(d)` where f(0) = d: the missing entry counts as zero"""
    p, k, g = a[0].args
    d = ip.call_value(a[1], [], st) if f["path"].endswith("with") else V(ip, st, a[1]) if len(a) > 1 else ZERO
    m = V(ip, st, p)
    slot = mk("place", p.args[0], p.args[1] + (("m", k, NONE),))
    ip.write(st, p.args[0], p.args[1], mapset(m, k, ZERO))
    ip.call_value(g, [slot], st)
    if sub(mark_num(mapget(V(ip, st, p), k, NONE)), d) is not ZERO:
        ip.write(st, p.args[0], p.args[1], mk("havoc", "Entry::and_modify", ZERO, m, k))
        return mk("havoc", "Entry::or_insert", ZERO, m, k)
    ip.write(st, p.args[0], p.args[1], mapset(m, k, mark_num(mapget(m, k, ZERO))))
    ip.call_value(g, [slot], st)
    return slot


@model("Entry::or_insert", "Entry::or_insert_with", "Entry::or_default")
def hor_insert(ip, a, st, e, f):
    en = a[0]
    if en.op == "entrymod":
        return modified(ip, a, st, e, f)
    if en.op != "entry" or en.args[0].op != "place":
        return NotImplemented
    if f["path"].endswith("with"):
        d = ip.call_value(a[1], [], st)
    elif f["path"].endswith("default"):
        t = strip_ref(e["ty"])
        d = ZERO if t in NUM_TYPES else mk("list") if "Vec<" in t else mk("call", "default", mk("str", t))
    else:
        d = V(ip, st, a[1])
    p, k = en.args
    m = V(ip, st, p)
    cur = mapget(m, k, d)
    mark(ip, e, cur)
    if cur is d and m.op == "mapempty":
        ip.write(st, p.args[0], p.args[1], mapset(m, k, d))
    return mk("place", p.args[0], p.args[1] + (("m", k, d),))


# ----------------------------------------------------------------- formatting
@model("fmt::format")
def ffmt(ip, a, st, e, f):
    return mk("call", "format", V(ip, st, a[0]))


@model("Arguments::new", "Arguments::from_str", "Arguments::new_const", "Arguments::new_v1", "Arguments::from_str_nonconst")
def fargs(ip, a, st, e, f):
    return mk("fmt", *[V(ip, st, x) for x in a])


@model("Argument::new_display", "Argument::new_debug", "Argument::from_usize", "Argument::new_lower_exp", "Argument::new_upper_exp")
def farg(ip, a, st, e, f):
    return mk("arg", norm(f["path"]), V(ip, st, a[0]))


@model("ToString::to_string")
def to_string(ip, a, st, e, f):
    v = V(ip, st, a[0])
    if v.op == "str":
        return v
    return mk("call", "to_string", v)


@model("io::_print", "io::_eprint")
def print_(ip, a, st, e, f):
    ip.event(st, "print", f["path"], [V(ip, st, x) for x in a])
    return UNIT


@model("Fn::call", "FnMut::call_mut", "FnOnce::call_once")
def fncall(ip, a, st, e, f):
    args = a[1]
    args = list(args.args) if args.op == "tuple" else [args]
    return ip.call_value(a[0], args, st, e)


@model("Instant::now", "rand::thread_rng", "SystemTime::now", "rand::random", "rngs::thread_rng")
def impure(ip, a, st, e, f):
    t = mk("call", norm(f["path"]), fresh("t"))
    ip.event(st, "call", f["path"], [], t, extra=f)
    return t


@model("IndexVec::into_vec")
def into_vec(ip, a, st, e, f):
    return V(ip, st, a[0])


@model("index::sample_weighted")
def sample_weighted(ip, a, st, e, f):
    """a draw of indices below n with the weights of the given function"""
    n = V(ip, st, a[1])
    i = fresh()
    ip.mute += 1
    w = V(ip, st, ip.call_value(a[2], [i], st.copy()))
    ip.mute -= 1
    vals = (V(ip, st, a[0]), n, seq(i, dom(ZERO, n), TRUE, w), V(ip, st, a[3]))
    t = mk("call", "sample_weighted", *vals)
    ip.event(st, "call", f["path"], vals, t, extra=f)
    return t


@model("slice::shuffle", "SliceRandom::shuffle")
def shuffle(ip, a, st, e, f):
    v, r = V(ip, st, a[0]), V(ip, st, a[1])
    t = mk("call", "shuffled", v, r)
    ip.event(st, "call", f["path"], (v, r), t, extra=f)
    ip.write(st, a[0].args[0], a[0].args[1], t)
    return UNIT
