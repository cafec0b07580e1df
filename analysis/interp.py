"""Gated value-graph construction over the typed program (THIR dump).

One forward pass per function: every expression becomes a value-graph node,
branches are merged with gates (no path is enumerated, nothing is executed,
no solver is consulted), calls to functions of the crate are expanded, loops
and iterator pipelines are summarised by recurrence recognition (SCEV style).
Calls that leave the crate and are not modelled stay opaque nodes and are
recorded as ordered, gated events.
"""
import re
from fractions import Fraction
from terms import *
import terms as TM

NUM_TYPES = {"f64", "f32", "usize", "isize", "i32", "i64", "u32", "u64", "u128", "i128", "u8", "u16", "i8", "i16", "bool"}
INT_TYPES = NUM_TYPES - {"f64", "f32", "bool"}


def strip_ref(t):
    t = t.strip()
    while t.startswith("&"):
        t = re.sub(r"^&('\w+ |'\{erased\} )?(mut )?", "", t)
    return t


_normc = {}


def norm(path):
    """std path -> 'Type::method' without generics"""
    r = _normc.get(path)
    if r is not None:
        return r
    p = path
    # <impl f64> -> f64 ; <impl [T]> -> slice ; <impl str> -> str
    p = re.sub(r"<impl \[T\]>", "slice", p)
    p = re.sub(r"<impl (\w+)>", r"\1", p)
    # drop generic argument lists
    out, d = [], 0
    i = 0
    while i < len(p):
        c = p[i]
        if c == "<":
            d += 1
        elif c == ">" and p[i - 1] != "-":
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    q = "".join(out)
    q = re.sub(r"(::)+", "::", q).strip(":")
    segs = q.split("::")
    r = "::".join(segs[-2:])
    # ordered maps and sets are maps and sets; nothing is concluded from an order of keys
    r = r.replace("BTreeMap::", "HashMap::").replace("BTreeSet::", "HashSet::")
    _normc[path] = r
    return r


def shortkey(key):
    """Type::method of a local function (independent of the module it lives in)"""
    k = str(key)
    m = re.match(r"^<(.*) as (.*)>::(\w+)$", k)
    if m:
        k = re.sub(r"<.*", "", m.group(1)).split("::")[-1] + "::" + m.group(3)
    while re.search(r"<[^<>]*>", k):
        k = re.sub(r"(::)?<[^<>]*>", "", k)
    return "::".join(k.split("::")[-2:])


class State:
    __slots__ = ("store", "pc", "dead", "assumes")

    def __init__(self, store=None, pc=TRUE, dead=False):
        self.store = store if store is not None else {}
        self.pc = pc
        self.dead = dead

    def copy(self):
        return State(dict(self.store), self.pc, self.dead)


class Unsupported(Exception):
    pass


class Event:
    __slots__ = ("kind", "key", "args", "res", "pc", "fn", "line", "loops", "seqno", "extra", "stack")

    def __repr__(self):
        return f"<{self.kind} {short(self.key) if self.key else ''} line {self.line} pc={self.pc} args={self.args}>"


class Interp:
    def __init__(self, prog, opaque=None, inline_limit=40, assume_hook=None):
        self.prog = prog
        self.opaque = opaque or (lambda key, f: False)
        self.stack = []          # (key)
        self.frames = 0
        self.parent = {}
        self.events = []
        self.loopstack = []
        self.pcstack = []
        self.exits = []          # stack of lists for return
        self.loopexits = []      # stack of (labels, breaks list, continues list)
        self.assumes = []        # (pc, cond, fn, line)
        self.notes = []
        self.mute = 0
        self.limit = inline_limit
        self.loops = []
        self.loopof = {}
        self.curline = 0
        self.steps = 0
        self.maxsteps = 600000
        import stdmodel
        self.models = stdmodel.MODELS
        self.analysed = set()
        self.lenenv = {}
        self.sites = 0

    def canonlen(self, t):
        """representative of a length that is known to coincide with another"""
        if self.lenenv:
            for _ in range(3):
                r = subst(t, self.lenenv)
                if r is t:
                    break
                t = r
        return t

    # ------------------------------------------------------------ utilities
    def newframe(self, parent=None):
        self.frames += 1
        self.parent[self.frames] = parent
        return self.frames

    def temp(self, st, v):
        f = self.newframe()
        st.store[(f, "tmp")] = v
        return (f, "tmp")

    def abs_pc(self, st):
        r = st.pc
        for p in self.pcstack:
            r = and_(p, r)
        return r

    def event(self, st, kind, key, args=(), res=None, extra=None):
        if self.mute:
            return None
        e = Event()
        e.kind, e.key, e.args, e.res = kind, key, tuple(args), res
        e.pc = self.abs_pc(st)
        e.fn = self.stack[-1] if self.stack else None
        e.stack = tuple(self.stack)
        e.line = self.curline
        e.loops = tuple(self.loopstack)
        e.seqno = len(self.events)
        e.extra = extra
        self.events.append(e)
        return e

    def note(self, what):
        self.notes.append((what, self.stack[-1] if self.stack else None, self.curline))

    def top(self, why):
        self.note(why)
        return mk("call", "?" + why, fresh("u"))

    # --------------------------------------------------------------- places
    def lookup(self, st, frame, var):
        f = frame
        while f is not None:
            if (f, var) in st.store:
                return (f, var)
            f = self.parent.get(f)
        return None

    def read(self, st, root, projs):
        v = st.store.get(root)
        if v is None:
            return self.top(f"unbound {root[1]}")
        return self.follow(st, v, projs)

    def follow(self, st, v, projs):
        for n, p in enumerate(projs):
            if v.op == "place":
                return self.read(st, v.args[0], v.args[1] + tuple(projs[n:]))
            v = self.proj1(v, p)
        return v

    def deref(self, st, v, depth=0):
        """strip place indirections"""
        while v.op == "place" and depth < 50:
            v = self.read(st, v.args[0], v.args[1])
            depth += 1
        return v

    def proj1(self, v, p):
        if p[0] == "f":
            return proj(v, p[1])
        if p[0] == "i":
            return at(v, p[1])
        if p[0] == "v":
            return vproj(v, p[1], p[2])
        if p[0] == "s":
            return slice_(v, p[1], p[2])
        if p[0] == "m":
            return mapget(v, p[1], p[2])
        raise Unsupported("proj " + p[0])

    def write(self, st, root, projs, val):
        cur = st.store.get(root)
        if cur is None:
            cur = self.top("unbound")
        st.store[root] = self.put(st, cur, projs, val)

    def put(self, st, cur, projs, val):
        if cur.op == "place" and projs:
            self.write(st, cur.args[0], cur.args[1] + tuple(projs), val)
            return cur
        if not projs:
            return val
        p, rest = projs[0], projs[1:]
        if cur.op == "ite" and p[0] in ("f", "v", "i"):
            pass
        old = self.proj1(cur, p)
        new = self.put(st, old, rest, val)
        if new is old:
            return cur
        if p[0] == "f":
            if cur.op == "tuple":
                a = list(cur.args)
                a[int(p[1])] = new
                return mk("tuple", *a)
            if cur.op == "ite":
                return ite(cur.args[0], obj_(cur.args[1], p[1], new), obj_(cur.args[2], p[1], new))
            return obj_(cur, p[1], new)
        if p[0] == "i":
            return upd(cur, p[1], new)
        if p[0] == "v":
            if cur.op == "variant":
                d = dict(cur.args[2])
                d[p[2]] = new
                return mk("variant", cur.args[0], cur.args[1], tuple(sorted(d.items())))
            if cur.op == "setv" and cur.args[1:3] == (p[1], p[2]):
                cur = cur.args[0]
            return mk("setv", cur, p[1], p[2], new)
        if p[0] == "s":
            return setslice_(cur, p[1], p[2], new)
        if p[0] == "m":
            return mapset(cur, p[1], new)
        raise Unsupported("put")

    def place_of(self, e, st, frame):
        """(root, projs) of an lvalue expression, or None"""
        k = e["k"]
        if k in ("var", "upvar"):
            r = self.lookup(st, frame, e["var"])
            if r is None:
                return None
            return (r, ())
        if k == "field":
            b = self.place_of(e["e"], st, frame)
            if b is None:
                return None
            return (b[0], b[1] + (("f", e["name"]),))
        if k == "index":
            b = self.place_of(e["e"], st, frame)
            i = self.eval(e["i"], st, frame)
            if b is None:
                return None
            return (b[0], b[1] + (("i", i),))
        if k == "deref":
            inner = e["e"]
            v = self.eval(inner, st, frame)
            if st.dead:
                return None
            if v.op == "place":
                return (v.args[0], v.args[1])
            b = None
            if inner["k"] in ("var", "upvar", "field", "index", "deref"):
                b = self.place_of(inner, st, frame)
            return b
        if k == "block" and not e["stmts"] and e["expr"]:
            return self.place_of(e["expr"], st, frame)
        return None

    # a reference that is one of several, by a condition: what is done through it is done under the condition
    def several(self, e, st, frame):
        """(expression, variable that holds one of several references), or (e, None)"""
        k = e["k"]
        if k in ("field", "index", "deref", "ref", "block", "coerce"):
            if k == "block" and (e["stmts"] or not e["expr"]):
                return e, None
            nm = "expr" if k == "block" else "e"
            inner = e[nm]
            if k == "deref" and inner["k"] in ("call", "if", "match") or k == "deref" and inner["k"] == "block" and inner["stmts"]:
                v = self.eval(inner, st, frame)
                if st.dead:
                    return e, None
                var = ("several", self.fresh_temp())
                st.store[(frame, var)] = v
                e = dict(e)
                e[nm] = {"k": "var", "var": var, "ty": inner.get("ty", ""), "line": inner.get("line")}
                return e, (frame, var) if self.is_several(v) else None
            x, r = self.several(inner, st, frame)
            if x is not inner:
                e = dict(e)
                e[nm] = x
            return e, r
        if k in ("var", "upvar"):
            r = self.lookup(st, frame, e["var"])
            n = 0
            while r is not None and n < 8:
                v = st.store.get(r)
                if v is None:
                    return e, None
                if self.is_several(v):
                    return e, r
                if v.op != "place" or v.args[1]:
                    return e, None
                r = v.args[0]
                n += 1
        return e, None

    _ntemp = 0

    def fresh_temp(self):
        self._ntemp += 1
        return self._ntemp

    def is_several(self, v):
        return v.op == "ite" and all(x.op == "place" or self.is_several(x) for x in v.args[1:])

    def each(self, st, root, f):
        v = st.store[root]

        def go(x):
            def g(s):
                s.store[root] = x
                return f(s)
            return g
        return self.branch(st, v.args[0], go(v.args[1]), go(v.args[2]))

    # ----------------------------------------------------------- expressions
    def typed(self, v, ty):
        t = strip_ref(ty)
        if t in NUM_TYPES:
            mark_num(v)
            if t == "bool" and not is_bool(v) and v.op not in ("never",):
                if v.op in ("at", "field", "call", "proj", "sym", "loopvar", "loopout", "mapget", "nth"):
                    return mk("bool", v)
        return v

    def eval(self, e, st, frame):
        if st.dead:
            return NEVER
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Unsupported("step budget")
        ln_ = e.get("line")
        if ln_:
            self.curline = ln_
        m = getattr(self, "e_" + e["k"], None)
        if m is None:
            return self.top("expr " + e["k"])
        v = m(e, st, frame)
        if v is None:
            v = UNIT
        if e["k"] in ("var", "upvar", "field", "index", "deref", "call", "match", "if", "block"):
            v = self.typed(v, e.get("ty", ""))
        return v

    def e_lit(self, e, st, frame):
        lk, val = e["lk"], e["val"]
        if lk == "int":
            return num(int(val))
        if lk == "float":
            return num(Fraction(val.replace("_", "")))
        if lk == "bool":
            return TRUE if val == "true" else FALSE
        return mk("str", val)

    def e_var(self, e, st, frame):
        r = self.lookup(st, frame, e["var"])
        if r is None:
            return self.top("unbound var " + e["var"])
        return st.store[r]

    e_upvar = e_var

    def e_field(self, e, st, frame):
        b = self.place_of(e, st, frame)
        if st.dead:
            return NEVER
        if b is not None:
            return self.read(st, *b)
        v = self.eval(e["e"], st, frame)
        v = self.deref(st, v)
        return proj(v, e["name"])

    def e_index(self, e, st, frame):
        b = self.place_of(e, st, frame)
        if st.dead:
            return NEVER
        if b is not None:
            return self.read(st, *b)
        v = self.deref(st, self.eval(e["e"], st, frame))
        i = self.eval(e["i"], st, frame)
        return at(v, i)

    def e_deref(self, e, st, frame):
        v = self.eval(e["e"], st, frame)
        if v.op == "place":
            return self.read(st, v.args[0], v.args[1])
        return v

    def e_ref(self, e, st, frame):
        if e["mut"]:
            # reborrow of an existing &mut
            e2, r = self.several(e, st, frame)
            if st.dead:
                return NEVER
            if r is not None:
                return self.each(st, r, lambda s: self.e_ref(e2, s, frame))
            e = e2
            b = self.place_of(e["e"], st, frame)
            if st.dead:
                return NEVER
            if b is None:
                v = self.eval(e["e"], st, frame)
                if v.op == "place":
                    return v
                return mk("place", self.temp(st, v), ())
            return self.mkplace(st, *b)
        if self.has_cell(e["e"].get("ty", "")):
            # a shared reference to a value with interior mutability: effects through it are visible
            b = self.place_of(e["e"], st, frame)
            if st.dead:
                return NEVER
            if b is not None:
                return self.mkplace(st, *b)
        v = self.eval(e["e"], st, frame)
        return v

    def has_cell(self, ty):
        """type (behind references) that stores a RefCell/Cell directly"""
        ty = ty.lstrip("&")
        ty = re.sub(r"^('\w+ )?(mut )?", "", ty)
        name = ty.split("<", 1)[0].split("::")[-1]
        cells = self.prog.__dict__.get("_cells")
        if cells is None:
            cells = set()
            for _ in range(4):
                for a in self.prog.adts.values():
                    for v in a["variants"]:
                        for fl in v["fields"]:
                            t = fl["ty"]
                            if "Rc<" in t or t.startswith("&"):
                                continue
                            if "Cell<" in t or t.split("<", 1)[0].split("::")[-1] in cells:
                                cells.add(a["path"].split("::")[-1])
            self.prog._cells = cells
        return name in cells

    def mkplace(self, st, root, projs):
        # collapse through places stored in the root
        v = st.store.get(root)
        n = 0
        for n, p in enumerate(projs):
            if v is not None and v.op == "place":
                return self.mkplace(st, v.args[0], v.args[1] + tuple(projs[n:]))
            v = self.proj1(v, p) if v is not None else None
        return mk("place", root, tuple(projs))

    def e_rawref(self, e, st, frame):
        return self.eval(e["e"], st, frame)

    def e_coerce(self, e, st, frame):
        return self.eval(e["e"], st, frame)

    def e_cast(self, e, st, frame):
        v = self.deref(st, self.eval(e["e"], st, frame))
        src, dst = e["from"], e["ty"]
        small = {"u8": (0, 255), "i8": (-128, 127), "u16": (0, 65535), "i16": (-32768, 32767)}
        if dst in small and src not in small and (src in INT_TYPES or src in ("f64", "f32")) and isinstance(v, T) and not (is_num(v) and small[dst][0] <= numval(v) <= small[dst][1]):
            # values beyond a byte or two are common: the cast is not the identity
            return mark_num(mk("call", "narrow", dst, v))
        if src == "f64" and dst == "f32" and not is_num(v):
            return mark_num(mk("call", "f32", v))
        if src in ("f64", "f32") and dst in INT_TYPES:
            return mk("trunc", v)
        mark_num(v)
        return v

    def e_bin(self, e, st, frame):
        a = self.deref(st, self.eval(e["l"], st, frame))
        b = self.deref(st, self.eval(e["r"], st, frame))
        if st.dead:
            return NEVER
        return self.binop(e["op"], a, b, strip_ref(e["l"]["ty"]), st)

    def binop(self, op, a, b, ty, st):
        integer = ty in INT_TYPES
        if op in ("+", "-", "*", "/", "%"):
            if op == "+":
                return add(a, b)
            if op == "-":
                return sub(a, b)
            if op == "*":
                return mul(a, b)
            if op == "/":
                return idiv(a, b) if integer else div(a, b)
            return mk("rem", a, b)
        if op in ("<", "<=", ">", ">="):
            if ty == "bool" or (a.op in ("str",) or b.op in ("str",)):
                return mk("bool", op, a, b)
            if op == "<":
                return lt(a, b, integer)
            if op == "<=":
                return le(a, b, integer)
            if op == ">":
                return lt(b, a, integer)
            return le(b, a, integer)
        if op in ("==", "!="):
            if ty == "bool":
                d = add(mul(a, b), mul(not_(a), not_(b)))
            else:
                d = eqb(a, b)
            return d if op == "==" else not_(d)
        if op in ("&", "|", "^") and ty == "bool":
            if op == "&":
                return and_(a, b)
            if op == "|":
                return or_(a, b)
            return sub(add(a, b), mul(num(2), a, b))
        if op in ("<<", ">>") and integer and is_num(b):
            k = num(2 ** int(numval(b)))
            return mul(a, k) if op == "<<" else idiv(a, k)
        return mk("call", "?op" + op, a, b)

    def e_un(self, e, st, frame):
        v = self.deref(st, self.eval(e["e"], st, frame))
        if st.dead:
            return NEVER
        if e["op"] == "-":
            return neg(v)
        if e["op"] == "!":
            return not_(v)
        return self.top("unop")

    def e_logic(self, e, st, frame):
        a = self.eval(e["l"], st, frame)
        if st.dead:
            return NEVER
        if e["op"] == "&&":
            st2 = st.copy()
            return self.branch(st, a, lambda s: self.eval(e["r"], s, frame), lambda s: FALSE)
        return self.branch(st, a, lambda s: TRUE, lambda s: self.eval(e["r"], s, frame))

    def e_tuple(self, e, st, frame):
        return mk("tuple", *[self.eval(x, st, frame) for x in e["es"]])

    def e_array(self, e, st, frame):
        return mk("list", *[self.eval(x, st, frame) for x in e["es"]])

    def e_repeat(self, e, st, frame):
        v = self.eval(e["e"], st, frame)
        m = re.match(r"(\d+)", e["n"])
        n = num(int(m.group(1))) if m else mk("sym", e["n"])
        return seq(fresh(), dom(ZERO, n), TRUE, v)

    def e_adt(self, e, st, frame):
        d = {}
        for f, x in e["fields"]:
            d[f] = self.eval(x, st, frame)
        if st.dead:
            return NEVER
        a = e["adt"]
        if a.split("::")[-1] in ("Range", "RangeInclusive", "RangeFrom", "RangeTo", "RangeFull"):
            k = a.split("::")[-1]
            if k == "Range":
                return mk("range", d["start"], d["end"])
            if k == "RangeFrom":
                return mk("range", d["start"], mk("inf"))
            if k == "RangeTo":
                return mk("range", ZERO, d["end"])
            if k == "RangeFull":
                return mk("range", ZERO, mk("inf"))
        if e["enum"]:
            return mk("variant", self.enumname(a), e["variant"], tuple(sorted(d.items())))
        if e["base"]:
            b = self.deref(st, self.eval(e["base"], st, frame))
            return obj(b, d)
        return struct(a, d)

    def enumname(self, a):
        n = a.split("::")[-1]
        return n if n in ("Option", "Result", "ControlFlow", "Ordering") else a

    def e_closure(self, e, st, frame):
        # evaluate moved upvars for effect on mut borrows: captured by frame
        return mk("clo", e["id"], frame)

    def e_fnref(self, e, st, frame):
        f = e["f"]
        return mk("fn", f["res"] or f["path"], f["path"], f["local"])

    def e_zst(self, e, st, frame):
        return UNIT

    def e_const(self, e, st, frame):
        f = e["f"]
        key = f["res"] or f["path"]
        b = self.prog.bodies.get(key)
        if b is not None and "body" in b:
            fr = self.newframe()
            return self.eval(b["body"], st, fr)
        t = f["path"]
        n = t.split("::")[-1]
        if n in ("INFINITY",):
            return mk("inf")
        if n == "NEG_INFINITY":
            return neg(mk("inf"))
        if n in ("MAX", "MIN", "EPSILON", "MIN_POSITIVE", "PI"):
            return mk("sym", "const:" + norm(t))
        if f.get("name") and "ordering" in t.lower() or n in ("Less", "Equal", "Greater"):
            return variant("Ordering", n)
        return mk("sym", "const:" + t)

    def e_static(self, e, st, frame):
        return mk("sym", "static:" + e["path"])

    def e_block(self, e, st, frame):
        if e.get("brk"):
            self.loopexits.append(([e["scope"]] + e.get("scopes", []), [], []))
            v = self.block(e, st, frame)
            _, brk, _ = self.loopexits.pop()
            exits = list(brk)
            if not st.dead:
                exits.append((st.pc, v, st.copy()))
            return self.merge_exits(st, exits)
        return self.block(e, st, frame)

    def block(self, e, st, frame):
        for s in e["stmts"]:
            if st.dead:
                return NEVER
            if s["s"] == "expr":
                self.eval(s["e"], st, frame)
            else:
                self.let(s, st, frame)
        if st.dead:
            return NEVER
        if e["expr"]:
            return self.eval(e["expr"], st, frame)
        return UNIT

    def let(self, s, st, frame):
        if s["init"] is None:
            self.bind_uninit(s["pat"], st, frame)
            return
        byref = self.pat_byref(s["pat"])
        pl = None
        if byref:
            pl = self.place_of(s["init"], st, frame)
        v = self.read(st, *pl) if pl is not None else self.eval(s["init"], st, frame)
        if st.dead:
            return
        if s["els"]:
            c, binds = self.match_pat(s["pat"], v, st, pl)

            def no(sx):
                self.eval(s["els"], sx, frame)
                return NEVER

            def yes(sx):
                self.do_binds(binds, sx, frame)
                return UNIT
            self.branch(st, c, yes, no)
            return
        _, binds = self.match_pat(s["pat"], v, st, pl)
        self.do_binds(binds, st, frame)

    def bind_uninit(self, p, st, frame):
        if p["p"] == "bind":
            st.store[(frame, p["var"])] = mk("uninit")

    def do_binds(self, binds, st, frame):
        for var, v in binds:
            st.store[(frame, var)] = v

    def pat_byref(self, p):
        if p is None:
            return False
        if p["p"] == "bind":
            return p["byref"] or (p["sub"] is not None and self.pat_byref(p["sub"]))
        if p["p"] in ("variant", "leaf"):
            return any(self.pat_byref(q) for _, q in p["subs"])
        if p["p"] == "or":
            return any(self.pat_byref(q) for q in p["subs"])
        if p["p"] == "deref":
            return self.pat_byref(p["sub"])
        return False

    def match_pat(self, p, v, st, pl=None):
        """(condition, bindings).  pl: place of the scrutinee if any"""
        k = p["p"]
        if k == "wild":
            return TRUE, []
        if k == "bind":
            if p["byref"]:
                val = mk("place", pl[0], pl[1]) if pl is not None else v
                if not p.get("ty", "").startswith("&mut") and pl is not None and not self._mutref(p):
                    val = v
            else:
                val = self.typed(v, p.get("ty", ""))
            binds = [(p["var"], val)]
            if p["sub"]:
                c, b2 = self.match_pat(p["sub"], v, st, pl)
                return c, binds + b2
            return TRUE, binds
        if k == "deref":
            v2 = v
            pl2 = pl
            if v.op == "place":
                pl2 = (v.args[0], v.args[1])
                v2 = self.read(st, *pl2)
            return self.match_pat(p["sub"], v2, st, pl2)
        if v.op == "place" and k in ("variant", "leaf", "const", "range", "slice"):
            pl = (v.args[0], v.args[1])
            v = self.read(st, *pl)
        if k == "leaf":
            c, binds = TRUE, []
            for f, q in p["subs"]:
                pl2 = (pl[0], pl[1] + (("f", f),)) if pl is not None else None
                c2, b2 = self.match_pat(q, proj(v, f), st, pl2)
                c = and_(c, c2)
                binds += b2
            return c, binds
        if k == "variant":
            c = is_variant(v, p["variant"])
            if p["adt"].split("::")[-1] not in ("Option", "Result", "ControlFlow", "Ordering"):
                pass
            binds = []
            for f, q in p["subs"]:
                pl2 = (pl[0], pl[1] + (("v", p["variant"], f),)) if pl is not None else None
                c2, b2 = self.match_pat(q, vproj(v, p["variant"], f), st, pl2)
                c = and_(c, c2)
                binds += b2
            return c, binds
        if k == "const":
            val = p["val"]
            ty = strip_ref(p["ty"])
            if ty == "bool":
                return (v if val == "true" else not_(v)), []
            m = re.match(r"^(-?[\d.]+)", val)
            if m and ty in NUM_TYPES:
                return zero(sub(v, num(Fraction(m.group(1).rstrip("."))))), []
            if v.op == "str":
                return (TRUE if mk("str", val.strip('"')) is v or val.strip('"') == v.args[0] else FALSE), []
            return mk("bool", "eqc", v, val), []
        if k == "range":
            return mk("bool", "inrange", v, p["val"]), []
        if k == "or":
            c = FALSE
            binds = []
            for q in p["subs"]:
                c2, b2 = self.match_pat(q, v, st, pl)
                c = or_(c, c2)
                binds = binds or b2
            return c, binds
        if k == "slice":
            c, binds = TRUE, []
            n = len(p["prefix"]) + len(p["suffix"])
            L = length(v)
            c = zero(sub(L, num(n))) if p["slice"] is None else le(num(n), L, True)
            for i, q in enumerate(p["prefix"]):
                c2, b2 = self.match_pat(q, at(v, num(i)), st)
                c = and_(c, c2)
                binds += b2
            for i, q in enumerate(p["suffix"]):
                c2, b2 = self.match_pat(q, at(v, sub(L, num(len(p["suffix"]) - i))), st)
                c = and_(c, c2)
                binds += b2
            if p["slice"]:
                c2, b2 = self.match_pat(p["slice"], slice_(v, num(len(p["prefix"])), sub(L, num(len(p["suffix"])))), st)
                c = and_(c, c2)
                binds += b2
            return c, binds
        self.note("pattern " + k)
        return mk("bool", "pat", fresh("u")), []

    def _mutref(self, p):
        # `ref mut x` bindings have x: &mut T ; the dump's pattern type is T
        return True

    # -------------------------------------------------------------- branching
    def branch(self, st, cond, then, els):
        """gate two continuations on cond"""
        if cond is TRUE:
            return then(st)
        if cond is FALSE:
            return els(st)
        s1, s2 = st.copy(), st.copy()
        s1.pc = and_(st.pc, cond)
        s2.pc = and_(st.pc, not_(cond))
        if s1.pc is FALSE:
            return els(st)
        if s2.pc is FALSE:
            return then(st)
        n0 = self.nexits()
        v1 = then(s1)
        n1 = self.nexits()
        v2 = els(s2)
        n2 = self.nexits()
        if s1.dead and s2.dead:
            st.dead = True
            st.store = s1.store
            return NEVER
        if s1.dead:
            if n1 == n0:  # diverges only by panicking: an assumption, not a gate
                self.assumes.append((st.pc, not_(cond), self.stack[-1] if self.stack else None, self.curline))
                s2.pc = self.unconj(s2.pc, st.pc, not_(cond))
            st.store, st.pc = s2.store, s2.pc
            return v2
        if s2.dead:
            if n2 == n1:
                self.assumes.append((st.pc, cond, self.stack[-1] if self.stack else None, self.curline))
                s1.pc = self.unconj(s1.pc, st.pc, cond)
            st.store, st.pc = s1.store, s1.pc
            return v1
        st.store = self.merge_store(cond, s1.store, s2.store)
        # gates introduced inside the branches survive only if something exited
        if s1.pc is and_(st.pc, cond) and s2.pc is and_(st.pc, not_(cond)):
            pass
        else:
            st.pc = add(s1.pc, s2.pc)
        return self.gate(cond, v1, v2)

    def gate(self, c, a, b):
        if a.op == "place" or b.op == "place":
            if a is b:
                return a
            return mk("ite", c, a, b)
        # numeric scalar: min / max / abs idioms
        if is_boolean_cmp(c) and numericish(a) and numericish(b) and not (is_bool(a) and is_bool(b)):
            r = minmax(c, a, b)
            if r is not None:
                return r
        return ite(c, a, b)

    def unconj(self, pc, base, cond):
        return base if pc is and_(base, cond) else pc

    def nexits(self):
        return sum(len(x) for x in self.exits) + sum(len(b) + len(c) for _, b, c in self.loopexits)

    def merge_store(self, c, a, b):
        out = {}
        for k in a:
            if k in b:
                x, y = a[k], b[k]
                out[k] = x if x is y else self.gate(c, x, y)
            else:
                out[k] = a[k]
        for k in b:
            if k not in a:
                out[k] = b[k]
        return out

    def merge_exits(self, st, exits):
        """exits: mutually exclusive (pc, value, state)"""
        if not exits:
            st.dead = True
            return NEVER
        pc, v, s = exits[-1]
        store = s.store
        tot = pc
        for c, v1, s1 in reversed(exits[:-1]):
            # condition relative to what is already merged
            store = self.merge_store(c, s1.store, store)
            v = self.gate(c, v1, v)
            tot = add(tot, c)
        st.store = store
        st.dead = False
        st.pc = tot
        return v

    def e_if(self, e, st, frame):
        c, binds_t = self.cond(e["cond"], st, frame)
        if st.dead:
            return NEVER

        def t(s):
            self.do_binds_list(binds_t, s, frame)
            return self.eval(e["then"], s, frame)

        def f(s):
            return self.eval(e["els"], s, frame) if e["els"] else UNIT
        return self.branch(st, c, t, f)

    def do_binds_list(self, b, st, frame):
        for var, v in b:
            st.store[(frame, var)] = v

    def cond(self, e, st, frame):
        """condition with possible `let` chains -> (bool, bindings)"""
        if e["k"] == "letcond":
            pl = self.place_of(e["e"], st, frame) if self.pat_byref(e["pat"]) else None
            v = self.read(st, *pl) if pl is not None else self.eval(e["e"], st, frame)
            if st.dead:
                return TRUE, []
            return self.match_pat(e["pat"], v, st, pl)
        if e["k"] == "logic" and e["op"] == "&&" and self.has_let(e):
            c1, b1 = self.cond(e["l"], st, frame)
            s2 = st.copy()
            s2.pc = and_(st.pc, c1)
            self.do_binds_list(b1, s2, frame)
            c2, b2 = self.cond(e["r"], s2, frame)
            return and_(c1, c2), b1 + b2
        v = self.eval(e, st, frame)
        if st.dead:
            return TRUE, []
        return self.deref(st, v), []

    def has_let(self, e):
        if e["k"] == "letcond":
            return True
        if e["k"] == "logic":
            return self.has_let(e["l"]) or self.has_let(e["r"])
        return False

    def e_letcond(self, e, st, frame):
        c, b = self.cond(e, st, frame)
        self.do_binds_list(b, st, frame)
        return c

    def e_match(self, e, st, frame):
        if e["src"] == "ForLoopDesugar":
            return self.for_loop(e, st, frame)
        byref = any(self.pat_byref(a["pat"]) for a in e["arms"])
        pl = self.place_of(e["e"], st, frame) if byref else None
        v = self.read(st, *pl) if pl is not None else self.eval(e["e"], st, frame)
        if st.dead:
            return NEVER
        return self.arms(e["arms"], 0, v, pl, st, frame)

    def arms(self, arms, n, v, pl, st, frame):
        if n >= len(arms):
            st.dead = True
            return NEVER
        a = arms[n]
        c, binds = self.match_pat(a["pat"], v, st, pl)
        if n == len(arms) - 1 and a["guard"] is None:
            c = TRUE  # exhaustiveness is checked by rustc

        def t(s):
            self.do_binds(binds, s, frame)
            if a["guard"] is not None:
                g, gb = self.cond(a["guard"], s, frame)

                def t2(s2):
                    self.do_binds(gb, s2, frame)
                    return self.eval(a["body"], s2, frame)
                return self.branch(s, g, t2, lambda s2: self.arms(arms, n + 1, v, pl, s2, frame))
            return self.eval(a["body"], s, frame)
        return self.branch(st, c, t, lambda s: self.arms(arms, n + 1, v, pl, s, frame))

    def e_assign(self, e, st, frame):
        v = self.eval(e["r"], st, frame)
        if st.dead:
            return NEVER
        self.assign(e["l"], v, st, frame)
        return UNIT

    def assign(self, l, v, st, frame):
        if l["k"] in ("tuple",):
            for i, x in enumerate(l["es"]):
                self.assign(x, proj(v, str(i)), st, frame)
            return
        l, r = self.several(l, st, frame)
        if st.dead:
            return
        if r is not None and l["k"] not in ("var", "upvar"):
            def put(s):
                self.assign(l, v, s, frame)
                return UNIT
            self.each(st, r, put)
            return
        b = self.place_of(l, st, frame)
        if b is None:
            if not st.dead:
                self.note("assign to unknown place " + l["k"])
            return
        root, projs = b
        # a variable that holds a reference is overwritten only when assigned directly
        if l["k"] in ("var", "upvar"):
            st.store[root] = v
            return
        pl = self.mkplace(st, root, projs)
        self.write(st, pl.args[0], pl.args[1], v)
        if not self.mute and self.trace_writes:
            self.event(st, "write", None, (pl, v))

    trace_writes = False

    def e_assignop(self, e, st, frame):
        r = self.deref(st, self.eval(e["r"], st, frame))
        e = dict(e)
        e["l"], rt = self.several(e["l"], st, frame)
        if st.dead:
            return NEVER
        if rt is not None and e["l"]["k"] not in ("var", "upvar"):
            return self.each(st, rt, lambda s: self.opassign(e, r, s, frame))
        return self.opassign(e, r, st, frame)

    def opassign(self, e, r, st, frame):
        rt = self.several(e["l"], st, frame)[1]
        if rt is not None and e["l"]["k"] not in ("var", "upvar"):
            return self.each(st, rt, lambda s: self.opassign(e, r, s, frame))
        b = self.place_of(e["l"], st, frame)
        if st.dead:
            return NEVER
        if b is None:
            v = self.eval(e["l"], st, frame)
            if v.op == "place":
                b = (v.args[0], v.args[1])
            else:
                self.note("assignop to unknown place")
                return UNIT
        pl = self.mkplace(st, *b)
        old = self.deref(st, self.read(st, pl.args[0], pl.args[1]))
        ty = strip_ref(e["l"]["ty"])
        mark_num(old)
        new = self.binop(e["op"], old, r, ty, st)
        self.write(st, pl.args[0], pl.args[1], new)
        if not self.mute and self.trace_writes:
            self.event(st, "write", None, (pl, new))
        return UNIT

    def e_return(self, e, st, frame):
        v = self.eval(e["e"], st, frame) if e["e"] else UNIT
        if st.dead:
            return NEVER
        self.exits[-1].append((st.pc, v, st.copy()))
        st.dead = True
        return NEVER

    def e_break(self, e, st, frame):
        v = self.eval(e["e"], st, frame) if e["e"] else UNIT
        if st.dead:
            return NEVER
        for labels, brk, cont in reversed(self.loopexits):
            if e["label"] in labels:
                brk.append((st.pc, v, st.copy()))
                break
        else:
            self.note("break target")
        st.dead = True
        return NEVER

    def e_continue(self, e, st, frame):
        for labels, brk, cont in reversed(self.loopexits):
            if e["label"] in labels:
                cont.append((st.pc, UNIT, st.copy()))
                break
        else:
            self.note("continue target")
        st.dead = True
        return NEVER

    # ------------------------------------------------------------------ calls
    def e_call(self, e, st, frame):
        self.cur_frame = frame
        f = e["f"]
        mac = e.get("mac") or []
        if "dyn" in f:
            fn = self.eval(f["dyn"], st, frame)
            args = [self.eval(a, st, frame) for a in e["args"]]
            if st.dead:
                return NEVER
            return self.call_value(fn, args, st, e)
        path = f["path"]
        n = norm(path)
        if n in ("panicking::panic", "panicking::panic_fmt", "panicking::assert_failed", "panicking::panic_display",
                 "panicking::unreachable_display", "panicking::assert_failed_inner", "panicking::panic_explicit",
                 "panicking::unreachable_default_msg", "rt::begin_panic", "rt::panic_fmt", "panicking::panic_str_2015",
                 "process::exit", "process::abort", "panicking::panic_nounwind"):
            self.event(st, "panic", path, ())
            st.dead = True
            return NEVER
        self.sites += 1
        args = []
        for a in e["args"]:
            args.append(self.eval(a, st, frame))
            if st.dead:
                return NEVER
        self.curline = e.get("line") or self.curline
        self.cur_frame = frame
        return self.call_each(f, args, st, e)

    def call_each(self, f, args, st, e):
        """a call through one of several mutable references is made under the condition"""
        for i, a in enumerate(args):
            if self.is_several(a) and str(e["args"][i].get("ty", "")).startswith("&mut"):
                def go(x):
                    return lambda s: self.call_each(f, args[:i] + [x] + args[i + 1:], s, e)
                return self.branch(st, a.args[0], go(a.args[1]), go(a.args[2]))
        return self.call(f, args, st, e)

    def call(self, f, args, st, e=None):
        path = f["path"]
        n = norm(path)
        key = f["res"] if f.get("res") else path
        ty = e["ty"] if e else ""
        local = f["local"] and n not in ("Fn::call", "FnMut::call_mut", "FnOnce::call_once")
        if local and not self.opaque(key, f):
            b = self.prog.bodies.get(key)
            is_trait_decl = f.get("trait") and not f.get("res")
            if b is not None and is_trait_decl and b.get("in_trait"):
                b = None if not self.inline_trait_default else b
            if b is not None and "body" in b and key not in self.stack and len(self.stack) < self.limit:
                return self.inline(b, args, st)
        elif not local:
            m = self.models.get(n)
            if m is not None:
                r = m(self, args, st, e, f)
                if r is not NotImplemented:
                    return r
        return self.opaque_call(key, f, args, st, e)

    inline_trait_default = False
    succeed = ()     # fallible calls taken to succeed

    def opaque_call(self, key, f, args, st, e):
        vals = [self.deep(st, a) for a in args]
        if f.get("local"):
            # a lazily described iterator handed to a function of the crate: its elements
            import stdmodel
            for n_, v in enumerate(vals):
                if v.op == "iter" and v.args and v.args[0] in ("map", "seq", "zip", "filter", "enumerate"):
                    vals[n_] = stdmodel.collect(self, [v], st, None, None)
        t = mk("call", self.callname(key, f), *vals)
        # havoc &mut arguments
        for i, a in enumerate(args):
            if a.op == "place":
                old = self.deref(st, a)
                self.write(st, a.args[0], a.args[1], mk("havoc", self.callname(key, f), num(i), *vals))
        self.event(st, "call", key, vals, t, extra=f)
        ty = e["ty"] if e else ""
        if ty == "!":
            st.dead = True
            return NEVER
        if self.succeed and str(key).split("::")[-1] in self.succeed:
            return variant("Result", "Ok", vproj(t, "Ok", "0"))
        return self.typed(t, ty)

    def callname(self, key, f):
        # trait methods keep the trait path; local fns their key
        if f["local"]:
            return shortkey(key)
        n = norm(f["path"])
        # a library function without a model: what it returns is not known
        return "?" + n if f["path"].split("::")[0] in ("core", "alloc", "std", "rayon") and n not in PLAIN else n

    def deep(self, st, a):
        return self.deref(st, a)

    def inline(self, b, args, st, frame_parent=None):
        self.analysed.add(b["key"])
        fr = self.newframe(frame_parent)
        for p, a in zip(b["params"], args):
            if p["pat"] is None:
                continue
            _, binds = self.match_pat(p["pat"], a, st, None)
            self.do_binds(binds, st, fr)
        line = self.curline
        self.stack.append(b["key"])
        self.exits.append([])
        saved_loops = self.loopexits
        self.loopexits = []
        self.pcstack.append(st.pc)
        st.pc = TRUE
        try:
            v = self.eval(b["body"], st, fr)
        finally:
            ex = self.exits.pop()
            self.stack.pop()
            self.loopexits = saved_loops
            outer = self.pcstack.pop()
        self.curline = line
        if not st.dead:
            ex.append((st.pc, v, st.copy()))
        if not ex:
            st.pc = outer
            st.dead = True
            return NEVER
        v = self.merge_exits(st, ex)
        st.pc = outer
        return v

    def call_value(self, fn, args, st, e=None):
        fn = self.deref(st, fn)
        if fn.op == "clo":
            b = self.prog.bodies.get(fn.args[0])
            if b is None or self.stack.count(b["key"]) > 2:
                return self.top("closure body")
            # THIR closure bodies have an implicit self parameter first
            ps = b["params"]
            if len(ps) == len(args) + 1:
                args = [UNIT] + list(args)
            return self.inline(b, args, st, frame_parent=fn.args[1])
        if fn.op == "fn":
            key, path, local = fn.args
            c = self.ctor(path, args)
            if c is not None:
                return c
            return self.call({"path": path, "res": key if key != path else None, "local": local, "trait": None, "name": None, "targs": []}, args, st, e or {"ty": "", "line": self.curline})
        if fn.op == "ite":
            return self.branch(st, fn.args[0], lambda s: self.call_value(fn.args[1], args, s, e), lambda s: self.call_value(fn.args[2], args, s, e))
        vals = [self.deep(st, a) for a in args]
        t = mk("call", "apply", fn, *vals)
        self.event(st, "call", "apply", (fn,) + tuple(vals), t)
        if e and e.get("ty"):
            t = self.typed(t, e["ty"])
        return t

    def ctor(self, path, args):
        """a tuple-struct or enum-variant constructor used as a function value"""
        d = tuple((str(i), a) for i, a in enumerate(args))
        a = self.prog.adts.get(path)
        if a is not None and not a["enum"]:
            return struct(path, dict(d))
        p, _, last = path.rpartition("::")
        a = self.prog.adts.get(p)
        if a is not None and a["enum"] and any(v["name"] == last for v in a["variants"]):
            return mk("variant", self.enumname(p), last, d)
        if last in ("Some", "Ok", "Err") and p.split("::")[-1] in ("Option", "Result"):
            return mk("variant", p.split("::")[-1], last, d)
        return None

    # ------------------------------------------------------------------ loops
    def for_loop(self, e, st, frame):
        rest = None
        x = e["e"]
        if x["k"] == "call" and re.match(r"&mut (std::iter::|std::(vec|slice)::(Into)?Iter\b|std::ops::Range)", ((x.get("f") or {}).get("targs") or [""])[0]):
            # an iterator consumed by reference: the body may take from the remainder
            it = self.eval(x["args"][0], st, frame)
            if it.op == "place":
                rest = (it.args[0], it.args[1])
        else:
            it = self.eval(x, st, frame)
        if st.dead:
            return NEVER
        it = self.to_iter(it, st)
        arm = e["arms"][0]
        loop = arm["body"]
        while loop["k"] == "block" and loop["expr"] and not loop["stmts"]:
            loop = loop["expr"]
        labels = list(loop.get("scopes", [])) + list(arm["body"].get("scopes", []))
        body = loop["body"]
        # block { match next(&mut iter) { None => break, Some(pat) => body } }
        m = body
        while m["k"] == "block":
            m = m["stmts"][0]["e"] if m["stmts"] else m["expr"]
        some = next(a for a in m["arms"] if a["pat"]["p"] == "variant" and a["pat"]["variant"] == "Some")
        pat = some["pat"]["subs"][0][1]

        def step(s, v):
            _, binds = self.match_pat(pat, v, s, None)
            self.do_binds(binds, s, frame)
            self.eval(some["body"], s, frame)
        return self.iterate(it, st, step, labels, rest)

    def e_loop(self, e, st, frame):
        labels = list(e.get("scopes", []))
        return self.generic_loop(e, st, frame, labels)

    def to_iter(self, v, st):
        import stdmodel
        return stdmodel.to_iter(self, v, st)

    def iterate(self, it, st, step, labels=(), rest=None):
        """run step(state, elem) for every element of it"""
        import stdmodel
        if it.op == "iter" and it.args[0] == "chain":
            r = self.iterate(it.args[1], st, step, labels)
            if st.dead:
                return NEVER
            return self.iterate(it.args[2], st, step, labels)
        if not labels:
            fl = stdmodel.split_flat(it)
            if fl is not None:
                src, f, wrap = fl

                def inner(s, v):
                    r = v if f is None else self.call_value(f, [v], s)
                    if not s.dead:
                        self.iterate(wrap(stdmodel.to_iter(self, r, s)), s, step)
                return self.iterate(src, st, inner)
        # short explicit lists are unrolled (exact)
        items = stdmodel.explicit(self, it, st)
        if items is not None and rest is None:
            for x in items:
                self.loopexits.append((list(labels), [], []))
                step(st, x)
                _, brk, cont = self.loopexits.pop()
                if cont:
                    ex = list(cont)
                    if not st.dead:
                        ex.append((st.pc, UNIT, st.copy()))
                    self.merge_exits(st, ex)
                if brk:
                    self.note("break in unrolled loop")
                    return self.top("break in unrolled loop")
                if st.dead:
                    return NEVER
            return UNIT
        i = fresh()

        def one(s):
            g, v = stdmodel.gen(self, it, i, s)
            if s.dead:
                return
            if rest is not None:
                self.write(s, rest[0], rest[1], mk("iter", "skip", it, add(i, ONE)))
            self.branch(s, g, lambda s2: (step(s2, v), UNIT)[1], lambda s2: UNIT)
        d = stdmodel.domof(self, it, st)
        return self.run_loop(st, i, d, one, labels)

    def leaves(self, old, new, path=(), idx=None):
        """changed leaf paths between two values"""
        if old is new:
            return
        if new.op == "upd" and idx is not None and new.args[0] is old and idx not in fvs(new.args[1]):
            yield from self.leaves(at(old, new.args[1]), new.args[2], path + (("i", new.args[1]),), idx)
            return
        if new.op == "upd" and old.op == "upd" and idx is not None and new.args[0] is old.args[0] \
                and new.args[1] is old.args[1] and idx not in fvs(new.args[1]):
            yield from self.leaves(old.args[2], new.args[2], path + (("i", new.args[1]),), idx)
            return
        if old.op in ("obj", "struct") or new.op == "obj":
            bo = old.args[0] if old.op in ("obj", "struct") else old
            bn = new.args[0] if new.op in ("obj", "struct") else new
            fo = dict(old.args[1]) if old.op in ("obj", "struct") else {}
            fn = dict(new.args[1]) if new.op in ("obj", "struct") else {}
            if bo is bn:
                for k in sorted(set(fo) | set(fn)):
                    a = fo.get(k)
                    if a is None:
                        a = proj(old, k)
                    b = fn.get(k)
                    if b is None:
                        b = proj(new, k)
                    yield from self.leaves(a, b, path + (("f", k),), idx)
                return
        if old.op == "tuple" and new.op == "tuple" and len(old.args) == len(new.args):
            for k, (a, b) in enumerate(zip(old.args, new.args)):
                yield from self.leaves(a, b, path + (("f", str(k)),), idx)
            return
        yield path

    def changed(self, before, after, idx=None):
        out = []
        for k, v in before.items():
            w = after.get(k)
            if w is None or w is v:
                continue
            for p in self.leaves(v, w, (), idx):
                out.append((k, p))
        return out

    def covers(self, a, b):
        return a[0] == b[0] and b[1][: len(a[1])] == a[1]

    def run_loop(self, st, idx, d, one, labels, whileloop=False):
        base = dict(st.store)
        havoc = []           # list of (root, projs)
        uid = fresh("L")
        rounds = 0
        while True:
            rounds += 1
            s = State(dict(base), TRUE)
            mus = {}
            pre = {}
            for k, p in havoc:
                v0 = self.read(s, k, p)
                mu = mk("loopvar", uid, len(mus), self.leafname(k, p))
                if numericish(v0):
                    mark_num(mu)
                mus[(k, p)] = mu
                pre[(k, p)] = v0
            for (k, p), mu in mus.items():
                s.store[k] = self.put(s, s.store[k], p, mu)
            mid = dict(s.store)
            final = False
            ev0, as0, no0 = len(self.events), len(self.assumes), len(self.notes)
            ex0 = [len(x) for x in self.exits]
            self.loopexits.append((list(labels), [], []))
            self.loopstack.append((idx, d, uid))
            self.pcstack.append(st.pc)
            try:
                one(s)
            finally:
                _, brk, cont = self.loopexits.pop()
                self.loopstack.pop()
                self.pcstack.pop()
            rets = self.exits[-1][ex0[-1]:] if self.exits else []
            norm_exits = list(cont)
            if not s.dead:
                norm_exits.append((s.pc, UNIT, s.copy()))
            # union of changes over every way out
            ch = set()
            for ex in norm_exits + brk + rets:
                for c in self.changed(mid, ex[2].store, idx):
                    ch.add(c)
            new = [c for c in ch if not any(self.covers(h, c) for h in havoc)]
            new = [c for c in new if not any(p[0] == "i" and uid in subterms_loopvars(p[1]) for p in c[1])] + \
                  [(c[0], self.cutpath(c[1], uid)) for c in new if any(p[0] == "i" and uid in subterms_loopvars(p[1]) for p in c[1])]
            if not new or rounds > 6:
                break
            # retry with more loop-carried places
            del self.events[ev0:]
            del self.assumes[as0:]
            del self.notes[no0:]
            if self.exits:
                del self.exits[-1][ex0[-1]:]
            new.sort(key=lambda c: (str(c[0]), len(c[1])))
            for c in new:
                if not any(self.covers(h, c) for h in havoc):
                    havoc = [h for h in havoc if not self.covers(c, h)]
                    havoc.append(c)
        # merged end-of-iteration state
        s_end = State(dict(mid), TRUE)
        if norm_exits:
            self.merge_exits(s_end, norm_exits)
        else:
            s_end.dead = True
        post = {}
        for kp in mus:
            post[kp] = self.read(s_end, kp[0], kp[1]) if not s_end.dead else pre[kp]
        info = {"uid": uid, "idx": idx, "dom": d, "pre": pre, "mu": mus, "post": post,
                "fn": self.stack[-1] if self.stack else None, "line": self.curline,
                "breaks": [(c, v) for c, v, _ in brk], "returns": [(c, v) for c, v, _ in rets], "while": whileloop,
                "contpc": s_end.pc if norm_exits else FALSE}
        self.loopof[uid] = info
        rd = lambda s_: {kp: self.read(s_, kp[0], kp[1]) for kp in mus}
        info["brk"] = [(c, v, rd(s_)) for c, v, s_ in brk]
        info["rets"] = [(c, v, rd(s_)) for c, v, s_ in rets]
        if not self.mute:
            self.loops.append(info)
        if self.exits and rets:
            del self.exits[-1][ex0[-1]:]
        sol = self.solve(info, early=bool(brk or rets) or whileloop)
        info["out"] = sol
        # ---- early exits
        st.store = dict(base)
        if brk or rets:
            self.early(st, info, brk, rets, sol, base)
        else:
            for kp, v in sol.items():
                st.store[kp[0]] = self.put(st, st.store[kp[0]], kp[1], v)
        return UNIT

    def cutpath(self, p, uid):
        out = []
        for x in p:
            if x[0] == "i" and uid in subterms_loopvars(x[1]):
                break
            out.append(x)
        return tuple(out)

    def leafname(self, k, p):
        return str(k[1]).split("#")[0] + "".join("." + str(x[1]) for x in p if x[0] == "f")

    def early(self, st, info, brk, rets, sol, base):
        idx, d, uid = info["idx"], info["dom"], info["uid"]
        mus = set(info["mu"].values())
        simple = not info["mu"]
        conds = [c for c, v, s in brk + rets]
        anyc = FALSE
        for c in conds:
            anyc = add(anyc, c)
        if simple and not info["while"]:
            f = bind("find", idx, d, anyc)
            hit = bind("any", idx, d, anyc)
            m = {idx: f}
            for c, v, s in rets:
                cc = and_(hit, subst(c, m)) if len(conds) > 1 else hit
                s2 = st.copy()
                self.exits[-1].append((and_(st.pc, cc), subst(v, m), s2))
            if rets:
                rc = FALSE
                for c, v, s in rets:
                    rc = add(rc, and_(hit, subst(c, m)) if len(conds) > 1 else hit)
                st.pc = and_(st.pc, not_(rc))
            return
        # general: loop leaves with opaque outputs
        out = {}
        for kp in info["mu"]:
            t = mk("loopout", uid, info["mu"][kp])
            if numericish(info["mu"][kp]):
                mark_num(t)
            out[kp] = t
        info["out"] = out
        for kp, v in out.items():
            st.store[kp[0]] = self.put(st, st.store[kp[0]], kp[1], v)
        last = mk("loopout", uid, idx)
        msub = {idx: last}
        for kp, mu in info["mu"].items():
            msub[mu] = mk("loopat", uid, mu)
        if rets:
            tot = FALSE
            for n, (c, v, s) in enumerate(rets):
                h = mk("bool", "exit", uid, num(n))
                tot = add(tot, h)
                s2 = State(dict(s.store), and_(st.pc, h))
                for k in list(s2.store):
                    s2.store[k] = subst(s2.store[k], msub)
                self.exits[-1].append((and_(st.pc, h), subst(v, msub), s2))
            if info["while"] and not brk:
                st.dead = True  # leaves only by returning
            else:
                st.pc = and_(st.pc, not_(tot))
        if brk and len(brk) == 1 and info["while"] and not rets:
            # values at the single break point are what the loop leaves behind
            c, v, s = brk[0]
            for kp in info["mu"]:
                val = self.read(s, kp[0], kp[1])
                if val is info["mu"][kp]:
                    continue
                st.store[kp[0]] = self.put(st, st.store[kp[0]], kp[1], subst(val, msub))

    def solve(self, info, early=False):
        """closed forms for loop-carried places"""
        idx, d, uid = info["idx"], info["dom"], info["uid"]
        mus = info["mu"]
        allmu = {m: kp for kp, m in mus.items()}

        def uses(t):
            return {m for m in allmu if contains_term(t, m) or self.hidden(t, m)}
        out = {}
        closed = info["closed"] = {}       # mu -> value at iteration idx (before the step)
        pending = dict(info["post"])
        lost = {}
        if early:
            return out
        progress = True
        while pending and progress:
            progress = False
            for kp in list(pending):
                mu, p0 = mus[kp], info["pre"][kp]
                t = pending[kp]
                if closed:
                    t = subst(t, closed)
                others = uses(t) - {mu}
                if others:
                    continue
                r = self.recognise(mu, p0, t, idx, d)
                if r is None:
                    continue
                final, during = r
                out[kp] = final
                if isinstance(during, tuple):
                    closed[during[0]] = during[1]   # only the element at the loop index is known
                    lost[kp] = t
                    del pending[kp]
                    progress = True
                elif during is not None:
                    closed[mu] = during
                    del pending[kp]
                    progress = True
                else:
                    lost[kp] = t
                    del pending[kp]
                    progress = True
        info["open"] = [kp for kp in mus if mus[kp] not in closed]
        if pending:
            # places whose value inside the loop is only known as that of the previous iteration
            more = True
            keep = set(pending)
            while more:
                more = False
                for kp, t in list(lost.items()):
                    if any(mus[kp] in uses(x) for x in pending.values()):
                        pending[kp] = t
                        del lost[kp]
                        more = True
            # coupled / unrecognised recurrences: canonical opaque fixpoint
            ks = sorted(pending, key=lambda kp: mus[kp].args[1] if mus[kp].op == "loopvar" else 0)
            body = []
            for kp in ks:
                t = subst(pending[kp], closed) if closed else pending[kp]
                body.append(mk("rec", info["pre"][kp], t))
            names = {}
            for n, kp in enumerate(ks):
                names[mus[kp]] = mk("muvar", num(n))
            body = tuple(subst(b, names) for b in body)
            L = bind("loop", idx, d, body)
            for n, kp in enumerate(ks):
                if kp not in keep:
                    continue
                t = mk("loopout", L, num(n))
                if numericish(mus[kp]):
                    mark_num(t)
                out[kp] = t
        return out

    def recognise(self, mu, p0, t, i, d):
        """closed form of  mu := t(mu, i)  started at p0; (final, value at i)"""
        t = subst(t, {mk("bool", mu): mu})
        if t is mu:
            return p0, p0
        if self.hidden(t, mu):
            return None
        if t.op == "poly" and any(x.op == "zero" and contains_term(x, mu) for m, _ in t.args for x, _ in m):
            from rulelib import vanish
            t = vanish(t)
        if not contains_term(t, mu) and contains_term(t, i) and d.args and d.args[0] is ZERO and subst(t, {i: num(-1)}) is p0:
            # the value of the previous iteration
            return subst(t, {i: sub(d.args[1], ONE)}), subst(t, {i: sub(i, ONE)})
        if not contains_term(t, mu):
            # overwritten each iteration: last value (guarded overwrite is not)
            hi = d.args[1] if d.args else mk("dlen", d)
            lastidx = sub(hi, ONE)
            return mk("lastof", seq(i, d, TRUE, t), p0), None
        # sequence pushes
        sp = split_push(t, mu)
        if sp is not None:
            g, el = sp
            if g is TRUE and contains_term(el, mu):
                el = subst(el, {length(mu): add(length(p0), i)})
            if g is TRUE and p0 is mk("list") and d.args and d.args[0] is ZERO and contains_term(el, mu):
                el = self.scan(mu, el, i) or el
            if not contains_term(el, mu) and not contains_term(g, mu):
                return concat(p0, seq(i, d, g, el)), concat(p0, mk("prefixseq", i, seq(i, d, g, el)))
        sa = split_append(t, mu)
        if sa is not None and not contains_term(sa, mu):
            j = fresh()
            return concat(p0, flat(i, d, sa)), concat(p0, flat(j, dom(ZERO, i), subst(sa, {i: j})))
        r = self.elementwise(mu, p0, t, i, d)
        if r is not None:
            return r, None
        # element-wise update at the loop index
        su = split_upd(t, mu)
        if su and all(j is su[0][0] for j, _, _ in su):
            j = su[0][0]
            off = sub(j, i)
            if not contains_term(off, i) and not contains_term(off, mu):
                el = at(mu, j)
                for _, g, v in su:
                    el = ite_num(g, v, el)
                el0 = subst(el, {at(mu, j): at(p0, j)})
                if not contains_term(el0, mu):
                    return self.mkseq_over(p0, i, d, el0, off), (at(mu, j), at(p0, j))
        r = recog_map(mu, p0, t, i, d)
        if r is not None:
            if r.op == "tallyon" and d.args and d.args[0] is ZERO:
                j, (_, g, x) = open_(r.args[1])
                return r, mk("tallyon", p0, bind("tally", j, dom(ZERO, i), g, x), r.args[2])
            return r, None
        if numericish(mu) or t.op == "poly":
            diff = sub(t, mu)
            if not contains_term(diff, mu):
                s = sum_(i, d, diff)
                j = fresh()
                pre = sum_(j, dom(ZERO, i), subst(diff, {i: j}))
                return add(p0, s), add(p0, pre)
            q, r = subst(t, {mu: FALSE}), subst(t, {mu: TRUE})
            if is_bool(p0) and is_bool(q) and is_bool(r) and t is add(mul(r, mu), mul(q, not_(mu))):
                # or-accumulation / and-accumulation
                if r is TRUE and not contains_term(q, mu):
                    a = bind("any", i, d, q)
                    j = fresh()
                    return or_(p0, a), or_(p0, bind("any", j, dom(ZERO, i), subst(q, {i: j})))
                if q is FALSE:
                    a = bind("any", i, d, not_(r))
                    j = fresh()
                    return and_(p0, not_(a)), and_(p0, not_(bind("any", j, dom(ZERO, i), subst(not_(r), {i: j}))))
            r = self.recog_lse(mu, p0, t, i, d)
            if r is not None:
                return r, None
            f = div(t, mu)
            if not contains_term(f, mu):
                j = fresh()
                return mul(p0, bind("prod", i, d, f)), mul(p0, bind("prod", j, dom(ZERO, i), subst(f, {i: j})))
            for op, bop in (("max", "maxof"), ("min", "minof")):
                if t.op == op and mu in t.args:
                    rest = [x for x in t.args if x is not mu]
                    if not any(contains_term(x, mu) for x in rest):
                        r = rest[0]
                        for x in rest[1:]:
                            r = mk(op, *sorted((r, x), key=lambda q: q.id))
                        final = bind(bop, i, d, r)
                        inf = mk("inf")
                        if p0 is (neg(inf) if op == "max" else inf) or is_extreme(p0, op):
                            return final, None
                        return (max_ if op == "max" else min_)(p0, final), None
        return None

    def scan(self, mu, el, i):
        """elements pushed one after another, each from the one before: the scalar recurrence, closed"""
        prev = at(mu, sub(i, ONE))
        m = fresh("elem")
        mark_num(m)
        step = subst(subst(el, {prev: m}), {lt(ZERO, i, True): TRUE, eqb(i, ZERO): FALSE})
        first = subst(el, {i: ZERO})
        if contains_term(step, mu) or contains_term(first, mu):
            return None
        k = fresh()
        r = self.recognise(m, first, subst(step, {i: add(k, ONE)}), k, dom(ZERO, i))
        return None if r is None or contains_term(r[0], m) else r[0]

    def elementwise(self, mu, p0, t, i, d):
        """mu[j] := f(mu[j], j, i) for every j: the scalar recurrence of each element, closed"""
        over = t.args[0] if t.op == "mapover" and len(t.args) == 2 and t.args[1] is mu else t if t.op == "seq" else None
        if over is None or over.op != "seq":
            return None
        n = length(p0)
        j, (dj, g, el) = open_(over)
        if g is not TRUE or dj.op != "dom" or dj.args[0] is not ZERO:
            return None
        hi = subst(dj.args[1], {length(mu): n})
        el = subst(el, {length(mu): n})
        if contains_term(hi, mu) or contains_term(n, i) or contains_term(n, mu):
            return None
        if hi is n:
            guard = TRUE
        elif t.op == "mapover" and hi.op == "min" and n in hi.args:
            guard = TRUE
            for x in hi.args:
                if x is not n:
                    guard = mul(guard, lt(j, x, True))
        else:
            return None
        x = at(mu, j)
        m = fresh("elem")
        if numericish(at(p0, j)) or numericish(x):
            mark_num(m)
        step = ite_num(guard, subst(el, {x: m}), m)
        if contains_term(step, mu) or x is mu:
            return None
        r = self.recognise(m, at(p0, j), step, i, d)
        if r is None or contains_term(r[0], m):
            return None
        return seq(j, dom(ZERO, n), TRUE, r[0])

    def hidden(self, t, mu):
        """the term depends on mu through what an inner loop without closed form leaves behind"""
        todo, seen = [t], set()
        while todo:
            for x in subterms(todo.pop()):
                if x.op in ("loopout", "loopat") and x.args[0] not in seen and isinstance(x.args[0], T) and x.args[0].op != "loop":
                    seen.add(x.args[0])
                    l = self.loopof.get(x.args[0])
                    if l is None:
                        continue
                    ts = [l["dom"]] + [v for v in list(l["pre"].values()) + list(l["post"].values()) if isinstance(v, T)]
                    if any(contains_term(y, mu) for y in ts):
                        return True
                    todo += ts
        return False

    def recog_lse(self, mu, p0, t, i, d):
        """acc := ln(e^acc + e^x)  in any of its stable spellings"""
        # only in some iterations: the others leave acc as it is
        cs = [y for y in subterms(t) if y.op in ("pos", "zero", "is", "any", "all") and not contains_term(y, mu)]
        if p0 is not None and 0 < len(cs) <= 3 and t is not mu:
            guard, step, ok = ZERO, None, True
            for bits in range(1 << len(cs)):
                on = {c: (bits >> k) & 1 == 1 for k, c in enumerate(cs)}
                if any(a is not b and on[a] and on[b] and a.op in ("pos", "zero") and b.op in ("pos", "zero") and a.args[0] in (b.args[0], neg(b.args[0])) for a in cs for b in cs):
                    continue
                u = subst(t, {c: TRUE if v else FALSE for c, v in on.items()})
                if u is mu:
                    continue
                if step is not None and u is not step:
                    ok = False
                    break
                step, g = u, ONE
                for c, v in on.items():
                    g = mul(g, c if v else not_(c))
                guard = add(guard, g)
            if ok and step is not None and guard is not ONE:
                x = self.lse_x(mu, step)
                if x is not None:
                    return ln(add(exp(p0), sum_(i, d, mul(guard, exp(x)))))
        x = self.lse_x(mu, t) if p0 is not None else None
        if x is not None:
            # first element peeled off a permutation: Σ over everything
            full = peel(p0, x, i, d)
            return ln(full) if full is not None else ln(add(exp(p0), sum_(i, d, exp(x))))
        cands = self.lse_cands(mu, t)
        # ln(e^acc + e^x) gone wrong: exp(step) is known in both orders of acc and x and is not e^acc + e^x
        if p0 is not None and any(y.op == "ln" for y in subterms(t)) and any(y.op == "exp" for y in subterms(t)):
            for x in cands:
                if contains_term(x, mu) or not any(y.op in ("max", "min") and x in y.args for y in subterms(t)):
                    continue
                want = add(exp(mu), exp(x))
                es = []
                for hi, lo in ((mu, x), (x, mu)):
                    es.append(exp(rewrite(t, lambda y: (hi if y.op == "max" else lo) if y.op in ("max", "min") and set(y.args) == {mu, x} else y)))
                known = all(not any(y.op in ("max", "min", "ite", "ln") and contains_term(y, mu) for y in subterms(e)) for e in es)
                if known and any(e is not want for e in es):
                    return mk("stepwise", p0, bind("seq", i, d, TRUE, subst(t, {mu: mk("muvar", ZERO)})))
        return None

    def lse_cands(self, mu, t):
        cands = set()
        for y in subterms(t):
            if y.op in ("max", "min") and mu in y.args and len(y.args) == 2:
                cands |= {z for z in y.args if z is not mu}
        for y in subterms(t):
            if y.op == "poly":
                # exp(x) next to exp(mu)
                for m, c in y.args:
                    for a, q in m:
                        if a.op == "exp" and not contains_term(a, mu):
                            cands.add(a.args[0])
        return cands

    def lse_x(self, mu, t):
        """the x with t = ln(e^mu + e^x)"""
        for x in self.lse_cands(mu, t):
            if contains_term(x, mu):
                continue
            if any(t is form for form in lse_forms(mu, x)):
                return x
        # the same, told apart by a comparison of acc and x
        cmps = [y for y in subterms(t) if y.op in ("pos", "zero") and mu in subterms(y)]
        ordered = set()
        for c in cmps:
            q = as_poly(c.args[0])
            k = q.get(((mu, Fraction(1)),))
            if k is not None and abs(k) == 1:
                x = sub(mu, c.args[0]) if k == 1 else add(mu, c.args[0])
                if not contains_term(x, mu):
                    ordered.add(x)
        for x in (ordered if cmps else ()):
            diff = sub(mu, x)
            want = add(exp(mu), exp(x))
            ok = True
            for sign in (1, 0, -1):
                hi, lo = (mu, x) if sign >= 0 else (x, mu)
                m = {}
                for c in cmps:
                    v = ONE if c.args[0] is diff else num(-1) if c.args[0] is neg(diff) else None
                    if v is None:
                        ok = False
                        break
                    w = numval(v) * sign
                    m[c] = TRUE if (w > 0 if c.op == "pos" else w == 0) else FALSE
                if not ok:
                    break
                u = rewrite(subst(t, m), lambda y: (hi if y.op == "max" else lo) if y.op in ("max", "min") and set(y.args) == {mu, x} else y)
                e = exp(u)
                if e is not want and together(sub(e, want)) is not ZERO:
                    ok = False
                    break
            if ok:
                return x
        return None

    def mkseq_over(self, p0, i, d, el, off=ZERO):
        n = length(p0)
        if off is not ZERO:
            if not (d.op == "dom" and d.args):
                return mk("mapover", seq(i, d, TRUE, el), p0, off)
            lo, hi = add(d.args[0], off), add(d.args[1], off)
            parts = [slice_(p0, ZERO, lo)] if lo is not ZERO else []
            parts.append(seq(i, d, TRUE, el))
            if self.canonlen(hi) is not self.canonlen(n):
                parts.append(slice_(p0, hi, n))
            return concat(*parts)
        if d.args and d.args[0] is ZERO and (d.args[1] is n or self.canonlen(d.args[1]) is self.canonlen(n)):
            return seq(i, dom(ZERO, n), TRUE, el)
        return mapover_(seq(i, d, TRUE, el), p0)

    def generic_loop(self, e, st, frame, labels):
        body = e["body"]
        idx = fresh()
        # counted `while k < n { ..; k += 1 }` is turned into a range loop
        save = (len(self.events), len(self.assumes), len(self.notes), len(self.loops))
        ex_save = [len(x) for x in self.exits]
        snapshot = dict(st.store)
        self.run_loop(st, idx, mk("dom", mk("sym", "while"), fresh("W")), lambda s: self.eval(body, s, frame), labels, whileloop=True)
        info = self.loops[-1] if len(self.loops) > save[3] else None
        if info is not None and len(info["breaks"]) == 1 and not info["returns"]:
            c = info["breaks"][0][0]
            for kp, mu in info["mu"].items():
                if info["pre"][kp] is None:
                    continue
                grown = split_push(info["post"][kp], mu) if isinstance(info["post"][kp], T) else None
                if grown is not None and grown[0] is TRUE and not info["brk"][1:] and not info["rets"]:
                    # `while v.len() < n { v.push(..) }`
                    cont = not_(c)
                    n = add(cont.args[0], length(mu)) if cont.op == "pos" else None
                    if n is not None and not any(contains_term(n, m) for m in info["mu"].values()):
                        del self.events[save[0]:]
                        del self.assumes[save[1]:]
                        del self.notes[save[2]:]
                        del self.loops[save[3]:]
                        st.store = dict(snapshot)
                        st.dead = False
                        p0 = info["pre"][kp]
                        i2 = fresh()

                        def grow(s):
                            pc = s.pc
                            s.pc = TRUE
                            self.eval_counted(body, s, frame, TRUE)
                        self.run_loop(st, i2, dom(ZERO, max_(sub(n, length(p0)), ZERO)), grow, labels)
                        return UNIT
                if sub(info["post"][kp], mu) is ONE and numericish(mu):
                    # exit condition not(mu < n) with n loop-invariant
                    cont = not_(c)
                    heads = conjuncts(cont)
                    if heads and all(h.op == "pos" for h in heads):
                        n = add(heads[0].args[0], mu)
                        for h in heads[1:]:
                            n = min_(n, add(h.args[0], mu))
                        if not any(contains_term(n, m) for m in info["mu"].values()):
                            # redo as a range loop
                            del self.events[save[0]:]
                            del self.assumes[save[1]:]
                            del self.notes[save[2]:]
                            del self.loops[save[3]:]
                            st2 = State(dict(snapshot), st.pc if not st.dead else TRUE)
                            st.store = dict(snapshot)
                            st.dead = False
                            p0 = info["pre"][kp]
                            i2 = fresh()

                            def one(s):
                                # pin the counter to its closed form and drop the head test
                                s.store[kp[0]] = self.put(s, s.store[kp[0]], kp[1], add(p0, i2))
                                self.pinned = (kp, n, add(p0, i2))
                                s.pc = TRUE
                                self.eval_counted(body, s, frame, lt(add(p0, i2), n, True))
                            self.run_loop(st, i2, dom(ZERO, sub(n, p0)), one, labels)
                            st.store[kp[0]] = self.put(st, st.store[kp[0]], kp[1], max_(p0, n) if not is_num(p0) or numval(p0) != 0 else n)
                            return UNIT
        return UNIT

    def eval_counted(self, body, s, frame, head):
        """evaluate a while-body under the knowledge that the head test holds"""
        b = body
        while b["k"] == "block" and not b["stmts"] and b["expr"]:
            b = b["expr"]
        if b["k"] == "if":
            c, binds = self.cond(b["cond"], s, frame)
            self.do_binds_list(binds, s, frame)
            self.eval(b["then"], s, frame)
            return
        self.eval(body, s, frame)


# ------------------------------------------------------------------- helpers
def lse_forms(a, b):
    hi, lo = max_(a, b), min_(a, b)
    yield add(hi, ln(add(ONE, exp(sub(lo, hi)))))
    yield ln(add(exp(a), exp(b)))
    yield add(a, ln(add(ONE, exp(sub(b, a)))))
    yield add(b, ln(add(ONE, exp(sub(a, b)))))


def peel(p0, x, i, d):
    """exp(f(s[0])) + Σ_{i<n-1} exp(f(s[1+i]))  =  Σ_{k<n} exp(f(s[k]))"""
    if not d.args or d.args[0] is not ZERO:
        return None
    k = fresh()
    # shift the loop index by one
    body = subst(x, {i: sub(k, ONE)})
    if subst(body, {k: ZERO}) is p0:
        return sum_(k, dom(ZERO, add(d.args[1], ONE)), exp(body))
    return None


def contains_term(t, x):
    return x in subterms(t)


_subc = {}


def subterms_loopvars(t):
    return {x.args[0] for x in subterms(t) if x.op == "loopvar"}


def subterms(t):
    r = _subc.get(t)
    if r is None:
        s = set()
        walk(t, s.add)
        r = frozenset(s)
        if len(_subc) > 20000:
            _subc.clear()
        _subc[t] = r
    return r


def lengthlike(t):
    if t.op == "len":
        return True
    if t.op == "field" and str(t.args[1]) in LENFIELDS:
        return True
    if t.op in ("min", "max"):
        return all(lengthlike(x) for x in t.args)
    if t.op == "dlen":
        return True
    if t.op == "sym" and str(t.args[0]).startswith("n_"):
        return True
    return False


LENFIELDS = {"n_sample", "n_feature", "n_examples", "size", "n_hypotheses"}


def obj_(cur, name, new):
    return obj(cur, {name: new})


def upd(base, k, v):
    if base.op == "upd" and base.args[1] is k:
        return upd(base.args[0], k, v)
    if base.op == "list" and is_num(k):
        n = numval(k)
        if n.denominator == 1 and 0 <= n < len(base.args):
            a = list(base.args)
            a[int(n)] = v
            return mk("list", *a)
    if v.op == "at" and v.args[0] is base and v.args[1] is k:
        return base
    return mk("upd", base, k, v)


REBUILD["upd"] = upd

# library functions whose result is only passed on, or whose call as such is what a rule looks for
PLAIN = {"error::new", "str::parse", "str::trim", "BufReader::new", "Duration::as_millis", "File::create", "File::open", "Formatter::write_fmt", "Instant::elapsed",
         "Path::extension", "Write::write_all"}


def slice_(v, a, b):
    if a is ZERO and (b.op == "inf" or b is length(v)):
        return v
    if b.op == "inf":
        b = length(v)
    if v.op == "seq":
        j = fresh()
        d, g, el = open_(v, j)[1]
        if g is TRUE and d.op == "dom" and d.args and d.args[0] is ZERO:
            k = fresh()
            return seq(k, dom(ZERO, sub(b, a)), TRUE, subst(el, {j: add(k, a)}))
    return mk("slice", v, a, b)


REBUILD["slice"] = slice_


def setv_(cur, vname, f, new):
    if cur.op == "variant" and cur.args[1] == vname:
        d = dict(cur.args[2])
        d[f] = new
        return mk("variant", cur.args[0], cur.args[1], tuple(sorted(d.items())))
    return mk("setv", cur, vname, f, new)


REBUILD["setv"] = setv_


def mapover_(s, p0, off=None):
    """p0 with its first entries replaced by s"""
    if off is None and s.op == "seq" and length(s) is length(p0):
        return s
    return mk("mapover", s, p0) if off is None else mk("mapover", s, p0, off)


REBUILD["mapover"] = mapover_


def setslice_(v, a, b, new):
    """v with positions a..b replaced"""
    if new.op == "upd" and new.args[0].op == "slice" and new.args[0].args == (v, a, b):
        return upd(v, add(a, new.args[1]), new.args[2])
    if new.op == "ite" and any(x.op == "upd" or (x.op == "slice" and x.args == (v, a, b)) for x in new.args[1:]):
        return ite(new.args[0], *[v if x.op == "slice" and x.args == (v, a, b) else setslice_(v, a, b, x) for x in new.args[1:]])
    if new.op == "slice" and new.args == (v, a, b):
        return v
    return mk("setslice", v, a, b, new)


REBUILD["setslice"] = setslice_


def mapget(m, k, default=None):
    if m.op == "mapset":
        if m.args[1] is k:
            return m.args[2]
    if m.op == "mapempty" and default is not None:
        return default
    return mk("mapget", m, k, default if default is not None else NONE)


def mapset(m, k, v):
    if m.op == "mapset" and m.args[1] is k:
        return mapset(m.args[0], k, v)
    return mk("mapset", m, k, v)


REBUILD["mapset"] = mapset
REBUILD["mapget"] = mapget


def split_push(t, mu):
    """t == mu with (conditionally) one element pushed -> (guard, elem)"""
    if t is mu:
        return FALSE, None
    if t.op == "concat" and t.args[0] is mu and len(t.args) == 2 and t.args[1].op == "list" and len(t.args[1].args) == 1:
        return TRUE, t.args[1].args[0]
    if t.op == "ite":
        a, b = split_push(t.args[1], mu), split_push(t.args[2], mu)
        if a is None or b is None:
            return None
        c = t.args[0]
        g = add(mul(c, a[0]), mul(not_(c), b[0]))
        if a[1] is None:
            return g, b[1]
        if b[1] is None:
            return g, a[1]
        return g, ite(c, a[1], b[1])
    return None


def split_append(t, mu):
    """t == mu with a (conditional) list of elements appended -> that list"""
    if t is mu:
        return mk("list")
    if t.op == "concat" and t.args[0] is mu:
        return concat(*t.args[1:])
    if t.op == "ite":
        a, b = split_append(t.args[1], mu), split_append(t.args[2], mu)
        if a is None or b is None:
            return None
        return ite(t.args[0], a, b)
    return None


def flat(i, d, body):
    """concatenation of the lists body(i)"""
    if body.op == "list" and len(body.args) == 1:
        return seq(i, d, TRUE, body.args[0])
    return bind("flat", i, d, body)


def recog_map(mu, p0, t, i, d):
    """maps built up in a loop: values added per key, entries set, or every value transformed"""
    r = recog_existing(mu, p0, t, i, d)
    if r is not None:
        return r
    g = TRUE
    while t.op == "ite" and (t.args[2] is mu or t.args[1] is mu):
        c = t.args[0]
        g = and_(g, c if t.args[2] is mu else not_(c))
        t = t.args[1] if t.args[2] is mu else t.args[2]
    if contains_term(g, mu):
        return None
    if t.op == "tallyon" and t.args[0] is mu and not contains_term(t.args[1], mu):
        return mk("tallyon", p0, bind("tally", i, d, g, t.args[1]), t.args[2])
    if t.op != "mapset" or t.args[0] is not mu:
        return None
    k, v = t.args[1], t.args[2]
    if g is TRUE and k is at(mk("call", "map_keys", mu), i) and d.args and d.args[1] is mk("len", p0):
        j = fresh()
        el = subst(v, {mk("mapget", mu, k, NONE): j})
        if not contains_term(el, mu):
            return mk("mapmap", p0, bind("lam", j, el))
    if contains_term(k, mu):
        return None
    for dflt in (ZERO, NONE):
        old = mk("mapget", mu, k, dflt)
        if contains_term(v, old):
            dv = sub(v, old)
            if not contains_term(dv, mu):
                return mk("tallyon", p0, bind("tally", i, d, g, mk("kv", k, dv)), "+" if dflt is ZERO else "~")
    if not contains_term(v, mu):
        return mk("tallyon", p0, bind("tally", i, d, g, mk("kv", k, v)), "=")
    return None


def recog_existing(mu, p0, t, i, d):
    """entries that exist are changed by a value and dropped when a condition on the result holds"""
    cs = cases(t)
    if t.op != "ite" or len(cs) > 6:
        return None
    k = v = None
    gs = gd = FALSE
    for g, x in cs:
        if x is mu:
            continue
        dele = x.op == "mapdel"
        if dele:
            kd, x = x.args[1], x.args[0]
            gd = add(gd, g)
            if k is not None and k is not kd:
                return None
            k = kd
            inner = [y for _, y in cases(x) if y is not mu] if x.op == "ite" else [x]
            if len(inner) > 1:
                return None
            if not inner or x is mu:
                continue
            x = inner[0]
        if x.op == "ite" or x.op != "mapset" or x.args[0] is not mu or (k is not None and x.args[1] is not k):
            return None
        k = x.args[1]
        if not dele:
            gs = add(gs, g)
        if v is not None and v is not x.args[2]:
            return None
        v = x.args[2]
    if k is None or contains_term(k, mu):
        return None
    old = mk("mapget", mu, k, NONE)
    some = mk("is", old, "Some")
    cur = mark_num(fresh())
    if v is None:
        c = subst(subst(gd, {some: TRUE}), {mk("proj", old, "Some", "0"): cur, old: cur})
        if contains_term(c, mu):
            return None
        return mk("tallyon", p0, bind("tally", i, d, TRUE, mk("kvd", k, ZERO, bind("lam", cur, c))), "~")

    def there(x):
        return subst(x, {some: TRUE, mk("proj", old, "Some", "0"): cur, old: cur})
    if subst(gs, {some: FALSE}) is not FALSE or not contains_term(gs, some):
        return None
    c = there(subst(gd, {some: TRUE}))
    if there(subst(gs, {some: TRUE})) is not not_(c):
        return None
    dv = sub(there(v), cur)
    if contains_term(dv, mu) or contains_term(dv, cur) or contains_term(c, mu):
        return None
    kv = mk("kv", k, dv) if c is FALSE else mk("kvd", k, dv, bind("lam", cur, c))
    return mk("tallyon", p0, bind("tally", i, d, TRUE, kv), "~")


def split_upd(t, mu):
    """[(index, guard, value)] for nested/conditional updates of mu"""
    if t is mu:
        return []
    if t.op == "upd":
        r = split_upd(t.args[0], mu)
        if r is None:
            return None
        return r + [(t.args[1], TRUE, t.args[2])]
    if t.op == "ite":
        a, b = split_upd(t.args[1], mu), split_upd(t.args[2], mu)
        if a is None or b is None:
            return None
        c = t.args[0]
        return [(j, and_(c, g), v) for j, g, v in a] + [(j, and_(not_(c), g), v) for j, g, v in b]
    return None


def ite_num(g, a, b):
    if g is TRUE:
        return a
    return ite(g, a, b)


def is_extreme(t, op):
    s = show(t)
    return t.op == "sym" and (("MIN" in s and op == "max") or ("MAX" in s and op == "min"))
