"""Transfer functions for standard-library calls."""
from terms import *
import re

MODELS = {}
PURE_OK = set()
INT_TYS = {"u8", "u16", "u32", "u64", "usize", "u128", "i8", "i16", "i32", "i64", "isize", "i128"}
FLOATS = ("f64", "f32")
RANGES = {"u8": (0, 255), "u16": (0, 65535), "u32": (0, 2**32 - 1), "u64": (0, 2**64 - 1), "usize": (0, 2**64 - 1),
          "i8": (-128, 127), "i16": (-2**15, 2**15 - 1), "i32": (-2**31, 2**31 - 1), "i64": (-2**63, 2**63 - 1),
          "isize": (-2**63, 2**63 - 1)}

_norm = {}


def norm(path):
    r = _norm.get(path)
    if r is not None:
        return r
    s = path
    m = re.search(r"<impl (.*?)>::(\w+)$", s)
    if m:
        head = m.group(1)
        # `<impl Trait for X>::m` or `<impl X>::m`
        if " for " in head:
            head = re.sub(r"<[^<>]*>", "", head.split(" for ")[0]).split("::")[-1]
        elif head == "[T]":
            head = "slice"
        else:
            head = re.sub(r"<.*>", "", head).split("::")[-1]
        r = f"{head}::{m.group(2)}"
    else:
        m = re.match(r"^<.* as (.*)>::(\w+)$", s)
        if m:
            r = re.sub(r"<.*>", "", m.group(1)).split("::")[-1] + "::" + m.group(2)
        else:
            prev = None
            while prev != s:
                prev = s
                s = re.sub(r"::<[^<>]*>", "", s)
                s = re.sub(r"<[^<>]*>", "", s)
            parts = s.split("::")
            r = "::".join(parts[-2:])
    _norm[path] = r
    return r


def model(*names):
    def deco(fn):
        for n in names:
            MODELS[n] = fn
        return fn
    return deco


def lookup(I, name, info):
    g = I.p.fns.get(name)
    if g is not None:
        if g.exp and g.impl_trait in ("std::clone::Clone", "std::cmp::PartialEq"):
            return MODELS.get(norm(g.impl_trait + "::" + g.item))
        return None
    path = info.get("path", name)
    n = norm(path)
    m = MODELS.get(n)
    if m is None and path != name:
        m = MODELS.get(norm(name))
    return m


# ------------------------------------------------------------------ helpers
def some(v):
    return S("Option", "Some", {"Some.0": v})


NONE = S("Option", "None", {})


def ok(v):
    return S("Result", "Ok", {"Ok.0": v})


def err(v):
    return S("Result", "Err", {"Err.0": v})


def rd(I, st, r):
    """value one reference level down"""
    if r.op == "&":
        return I.read(st, r.args[0], r.args[1])
    if r.op == "S" and r.args[0] == "Box":
        return I.deep(st, r)
    if r.op == "c" or r.op in ("veclit",):
        return r
    root, p = I.target(st, r)
    return I.read(st, root, p)


def wr(I, st, r, v):
    s = st.copy()
    root, p = I.target(s, r)
    I.write(s, root, p, v)
    return s


def self_ty(ci):
    a = ci.info.get("args") or []
    return a[0] if a else ""


def is_ref(v):
    return v.op == "&"


def elem_ref(I, st, r, i):
    root, p = I.target(st, r)
    return mk("&", root, at_index(p, i))


def site(ci):
    return (ci.f.name, ci.bi)


# ------------------------------------------------------------------ indexing, deref
@model("Index::index", "IndexMut::index_mut")
def index(I, st, ci, a):
    ty = (ci.info.get("args") or ["", ""])
    ity = ty[1] if len(ty) > 1 else ""
    r, i = a[0], a[1]
    if i.op == "S" and i.args[0] in ("Range", "RangeFrom", "RangeTo", "RangeFull", "RangeInclusive", "RangeToInclusive"):
        v = I.deep(st, r)
        n = I.length(st, v)
        lo = get_field(i, "start") if i.args[0] in ("Range", "RangeFrom", "RangeInclusive") else C(0)
        hi = get_field(i, "end") if i.args[0] in ("Range", "RangeTo", "RangeInclusive", "RangeToInclusive") else n
        if i.args[0] == "RangeToInclusive":
            hi = after(hi)  # (RangeInclusive is built with its end moved already)
        I.index_site(st, ci, v, hi, n, "slice")
        if lo is C(0) and hi is n:
            return [(st, r)]
        if ci.info.get("path", "").endswith("index_mut"):
            root, p = I.target(st, r)
            if p and p[-1][0] == "R":
                lo, hi, p = add(p[-1][1], lo), add(p[-1][1], hi), p[:-1]
            return [(st, mk("&", root, tuple(p) + (("R", lo, hi),)))]
        return [(st, mk("&", ("K", mk("slice", v, lo, hi)), ()))]
    if ity and ity not in ("usize",) and ity in INT_TYS:
        return None
    I.index_site(st, ci, r, i, None, "index")
    return [(st, elem_ref(I, st, r, i))]


@model("Deref::deref", "DerefMut::deref_mut", "AsRef::as_ref", "AsMut::as_mut", "Borrow::borrow", "BorrowMut::borrow_mut",
       "String::as_str", "Vec::as_slice", "Vec::as_mut_slice", "String::as_mut_str", "slice::as_ref", "String::deref",
       "hint::must_use", "Vec::into_boxed_slice", "convert::identity")
def ident_ref(I, st, ci, a):
    r = a[0]
    t = self_ty(ci)
    if ci.info.get("path", "").startswith("std::ops::Deref"):
        if not re.match(r"^(alloc::|std::)?(vec::Vec|string::String|boxed::Box|sync::Arc|rc::Rc)", t.replace("alloc::", "")):
            return None
        if r.op == "&":
            v = I.read(st, r.args[0], r.args[1])
            if "Arc" in t or "Rc" in t or "Box" in t:
                return [(st, get_field(v, "0") if v.op == "S" else mk("&", ("H", v), ()))]
    return [(st, r)]


@model("Clone::clone")
def clone(I, st, ci, a):
    return [(st, rd(I, st, a[0]))]


@model("ToOwned::to_owned", "slice::to_vec", "Vec::to_vec", "slice::into_vec", "str::to_owned", "String::clone", "String::into_string")
def to_owned(I, st, ci, a):
    return [(st, I.deep(st, a[0]))]


@model("ToString::to_string", "string::to_string")
def to_string(I, st, ci, a):
    t = self_ty(ci)
    v = I.deep(st, a[0])
    if t in ("str", "alloc::string::String", "&str", "std::string::String", "") or (v.op == "c" and isinstance(v.args[0], str)):
        return [(st, v)]
    if v.op == "c" and type(v.args[0]) is int:
        return [(st, C(str(v.args[0])))]
    return [(st, mk("tostr", v))]


@model("Into::into", "From::from")
def into(I, st, ci, a):
    v = a[0]
    if is_ref(v):
        d = I.deep(st, v)
        if d.op == "c" or "str" in "".join(ci.info.get("args") or []):
            return [(st, d)]
        return [(st, v)]
    ts = ci.info.get("args") or []
    if len(ts) == 2 and ts[0] in INT_TYS and ts[1] in INT_TYS:
        return [(st, v)]
    if len(ts) == 2 and set(ts) & set(FLOATS) and set(ts) & INT_TYS:
        return [(st, C(float(v.args[0])) if is_c(v) else mk("i2f", v))]
    if len(ts) == 2 and "bool" in ts and set(ts) & INT_TYS:
        return [(s2, C(1 if yes else 0)) for s2, yes in I.fork(st, v)]
    if len(ts) == 2 and any("char" in t for t in ts) or any("bool" in t for t in ts):
        return [(st, mk("cast", ts[1], v))]
    return [(st, v)]


@model("TryInto::try_into", "TryFrom::try_from")
def try_into(I, st, ci, a):
    ts = ci.info.get("args") or []
    if ci.info.get("path", "").endswith("try_from"):
        ts = list(reversed(ts))
    v = a[0]
    if len(ts) == 2 and ts[0] in INT_TYS and ts[1] in RANGES:
        I.note_ty(v, ts[0])
        lo, hi = I.interval(st, v)
        if lo is None:
            lo = RANGES.get(ts[0], (None, None))[0]
        if hi is None:
            hi = RANGES.get(ts[0], (None, None))[1]
        rl, rh = RANGES[ts[1]]
        if lo is not None and hi is not None and lo >= rl and hi <= rh:
            return [(st, ok(v))]
        return [(s, ok(v) if b else err(mk("tryerr", v))) for s, b in I.fork(st, mk("fits", ts[1], v))]
    if len(ts) == 2 and ts[1].startswith("["):
        return [(st, ok(I.deep(st, v)))]
    return None


# ------------------------------------------------------------------ comparison
def is_float(ci):
    return self_ty(ci).strip("&") in FLOATS


@model("PartialEq::eq")
def p_eq(I, st, ci, a):
    return [(st, teq(cst(I, st, I.deep(st, a[0])), cst(I, st, I.deep(st, a[1]))))]


@model("PartialEq::ne")
def p_ne(I, st, ci, a):
    # a local hand-written `eq` decides `ne`
    t = self_ty(ci)
    return [(st, tnot(teq(cst(I, st, I.deep(st, a[0])), cst(I, st, I.deep(st, a[1])))))]


def cst(I, st, v):
    k = I.const_of(st, v)
    if k is not v:
        return k
    vn = I.variant_of(st, v)
    if vn is not None and v.op != "S":
        return v
    return v


@model("PartialOrd::lt", "PartialOrd::gt", "PartialOrd::le", "PartialOrd::ge")
def p_ord(I, st, ci, a):
    x, y = I.deep(st, a[0]), I.deep(st, a[1])
    n = norm(ci.info["path"]).split("::")[1]
    if "f64" in self_ty(ci) or "f32" in self_ty(ci):
        r = {"lt": lambda: flt(x, y), "gt": lambda: flt(y, x), "le": lambda: fle(x, y), "ge": lambda: fle(y, x)}[n]()
    else:
        r = {"lt": lambda: tlt(x, y), "gt": lambda: tlt(y, x), "le": lambda: tnot(tlt(y, x)), "ge": lambda: tnot(tlt(x, y))}[n]()
    return [(st, r)]


@model("Ord::cmp", "PartialOrd::partial_cmp")
def p_cmp(I, st, ci, a):
    x, y = I.deep(st, a[0]), I.deep(st, a[1])
    t = self_ty(ci).strip("&")
    if t not in INT_TYS:
        return [(st, mk("cmp", x, y))]
    w = (lambda v: some(v)) if ci.info["path"].endswith("partial_cmp") else (lambda v: v)
    out = []
    for s, b in I.fork(st, tlt(x, y)):
        if b:
            out.append((s, w(S("Ordering", "Less", {}))))
        else:
            for s2, b2 in I.fork(s, teq(x, y)):
                out.append((s2, w(S("Ordering", "Equal" if b2 else "Greater", {}))))
    return out


@model("cmp::min", "cmp::max", "Ord::min", "Ord::max")
def minmax(I, st, ci, a):
    x, y = a
    ts = self_ty(ci)
    if is_ref(x) and is_ref(y):
        x, y = I.deep(st, x), I.deep(st, y)
    mxm = norm(ci.info["path"]).endswith("max")
    d = I.ev(st, tlt(x, y))
    if d is None:
        e = I.ev(st, tlt(y, x))
        if e is False:
            # x <= y
            return [(st, y if mxm else x)]
        return [(st, (tmax if mxm else tmin)(x, y))]
    if d:
        return [(st, y if mxm else x)]
    return [(st, x if mxm else y)]


@model("Ord::clamp")
def clamp(I, st, ci, a):
    return [(st, tmin(tmax(a[0], a[1]), a[2]))]


# ------------------------------------------------------------------ integers and floats
def arith(op):
    def f(I, st, ci, a):
        x, y = I.deep(st, a[0]), I.deep(st, a[1])
        t = (ci.info.get("args") or [""])[0].strip("&")
        if "String" in t:
            return [(st, mk("sapp", x, y))]
        return [(st, I.binop(st, op, x, y, t))]
    return f


for _o in ("Add", "Sub", "Mul", "Div", "Rem", "BitAnd", "BitOr", "BitXor", "Shl", "Shr"):
    MODELS[f"{_o}::{_o.lower()}"] = arith(_o)
MODELS["BitAnd::bitand"], MODELS["BitOr::bitor"], MODELS["BitXor::bitxor"] = arith("BitAnd"), arith("BitOr"), arith("BitXor")


def arith_assign(op):
    def f(I, st, ci, a):
        x, y = rd(I, st, a[0]), I.deep(st, a[1])
        t = (ci.info.get("args") or [""])[0].strip("&")
        if "String" in t:
            return [(wr(I, st, a[0], mk("sapp", x, y)), UNIT)]
        return [(wr(I, st, a[0], I.binop(st, op, x, y, t)), UNIT)]
    return f


for _o in ("Add", "Sub", "Mul", "Div", "Rem"):
    MODELS[f"{_o}Assign::{_o.lower()}_assign"] = arith_assign(_o)


def num(*ops):
    def deco(fn):
        for o in ops:
            for t in sorted(INT_TYS):
                MODELS[f"{t}::{o}"] = fn
        return fn
    return deco


@num("saturating_sub")
def sat_sub(I, st, ci, a):
    x, y = a
    if I.ev(st, tlt(x, y)) is False:
        return [(st, sub(x, y))]
    if ci.name.split("impl ")[-1][0] == "u":
        return [(st, sub(tmax(x, y), y))]
    return [(st, sub(x, y))]


@num("saturating_add", "wrapping_add")
def sat_add(I, st, ci, a):
    return [(st, add(a[0], a[1]))]


@num("wrapping_sub")
def wrap_sub(I, st, ci, a):
    x, y = a
    if I.ev(st, tlt(x, y)) is False:
        return [(st, sub(x, y))]
    return [(st, mk("wsub", x, y))]


@num("checked_sub")
def chk_sub(I, st, ci, a):
    if ci.name.split("impl ")[-1][0] != "u":
        return [(st, some(sub(a[0], a[1])))]
    return [(s, NONE if b else some(sub(a[0], a[1]))) for s, b in I.fork(st, tlt(a[0], a[1]))]


@num("checked_add")
def chk_add(I, st, ci, a):
    m = re.search(r"\b(u8|u16|u32)\b", ci.name)
    r = add(a[0], a[1])
    if m is None:
        return [(st, some(r))]
    return [(s, NONE if b else some(r)) for s, b in I.fork(st, tlt(C({"u8": 255, "u16": 65535, "u32": 2 ** 32 - 1}[m.group(1)]), r))]


@num("overflowing_sub")
def ovf_sub(I, st, ci, a):
    if ci.name.split("impl ")[-1][0] != "u":
        return None
    out = []
    for s, b in I.fork(st, tlt(a[0], a[1])):
        out.append((s, S("tuple", None, {"0": mk("wsub", a[0], a[1]) if b else sub(a[0], a[1]), "1": C(b)})))
    return out


@num("abs_diff")
def abs_diff(I, st, ci, a):
    return [(st, sub(tmax(a[0], a[1]), tmin(a[0], a[1])))]


@num("pow")
def ipow(I, st, ci, a):
    if is_int(a[0]) and is_int(a[1]):
        return [(st, C(a[0].args[0] ** a[1].args[0]))]
    return [(st, mk("ipow", a[0], a[1]))]


@num("rem_euclid")
def irem_euclid(I, st, ci, a):
    l = I.interval(st, a[0])[0]
    if is_int(a[0]) and is_int(a[1]) and a[1].args[0]:
        return [(st, C(a[0].args[0] % abs(a[1].args[0])))]
    if l is not None and l >= 0:
        return [(st, mod(a[0], a[1]))]
    return [(st, mk("emod", a[0], a[1]))]


@num("abs")
def iabs(I, st, ci, a):
    return [(st, mk("abs", a[0]))]


@num("to_be_bytes", "to_le_bytes")
def to_bytes(I, st, ci, a):
    t = ci.name.split("impl ")[-1].split(">")[0]
    n = {"u8": 1, "u16": 2, "u32": 4, "u64": 8, "usize": 8}.get(t)
    if not n:
        return None
    I.note_ty(a[0], t)
    bs = [mod(div(a[0], C(256 ** k)), C(256)) for k in range(n)]
    if "be_bytes" in ci.name:
        bs.reverse()
    return [(st, mk("veclit", *bs))]


@num("from_be_bytes", "from_le_bytes")
def from_bytes(I, st, ci, a):
    t = ci.name.split("impl ")[-1].split(">")[0]
    n = {"u8": 1, "u16": 2, "u32": 4, "u64": 8, "usize": 8}.get(t)
    v = I.deep(st, a[0])
    bs = [select(v, C(i)) for i in range(n)]
    for b in bs:
        I.note_ty(b, "u8")
    if "be_bytes" in ci.name:
        bs.reverse()
    r = C(0)
    for k, b in enumerate(bs):
        r = add(r, mul(C(256 ** k), b))
    return [(st, r)]


for _t in FLOATS:
    for _m in ("powf", "powi", "sqrt", "round", "abs", "sin", "cos", "floor", "ceil", "ln", "exp", "log10", "max", "min", "trunc",
               "is_nan", "is_infinite", "is_finite", "rem_euclid", "clamp"):
        def _fl(I, st, ci, a, m=_m):
            return [(st, mk("f." + m, *[I.deep(st, x) for x in a]))]
        MODELS[f"{_t}::{_m}"] = _fl


# ------------------------------------------------------------------ vectors
@model("Vec::new", "Vec::with_capacity", "SmallVec::new", "VecDeque::new", "VecDeque::with_capacity")
def vnew(I, st, ci, a):
    return [(st, mk("veclit"))]


@model("Default::default")
def dflt(I, st, ci, a):
    t = self_ty(ci)
    if t in INT_TYS:
        return [(st, C(0))]
    if t in FLOATS:
        return [(st, C(0.0))]
    if t == "bool":
        return [(st, FALSE)]
    if "String" in t:
        return [(st, C(""))]
    if "Vec<" in t:
        return [(st, mk("veclit"))]
    if "Option" in t:
        return [(st, NONE)]
    return None


@model("vec::from_elem")
def from_elem(I, st, ci, a):
    return [(st, mk("from_elem", a[0], a[1]))]


def vpush(v, x):
    if v.op == "veclit":
        return mk("veclit", *(list(v.args) + [x]))
    return mk("push", v, x)


@model("Vec::push", "SmallVec::push", "VecDeque::push_back")
def push(I, st, ci, a):
    v = rd(I, st, a[0])
    return [(wr(I, st, a[0], vpush(v, a[1])), UNIT)]


def vappend(v, w):
    items = []
    b = w
    while b.op == "push":
        items.append(b.args[1])
        b = b.args[0]
    items.reverse()
    if b.op == "veclit":
        for x in list(b.args) + items:
            v = vpush(v, x)
        return v
    if v.op == "veclit" and not v.args:
        return w
    return mk("append", v, w)


@model("Vec::append")
def append(I, st, ci, a):
    v, w = rd(I, st, a[0]), rd(I, st, a[1])
    s = wr(I, st, a[0], vappend(v, w))
    return [(wr(I, s, a[1], mk("veclit")), UNIT)]


@model("Vec::extend_from_slice")
def ext_slice(I, st, ci, a):
    return [(wr(I, st, a[0], vappend(rd(I, st, a[0]), I.deep(st, a[1]))), UNIT)]


@model("Extend::extend")
def extend(I, st, ci, a):
    it = a[1]
    if is_ref(it) or it.op not in ("S",):
        return [(wr(I, st, a[0], vappend(rd(I, st, a[0]), I.deep(st, it))), UNIT)]
    if it.args[0] in ITERS:
        w = collected(I, st, it)
        if w is not None:
            return [(wr(I, st, a[0], vappend(rd(I, st, a[0]), w)), UNIT)]

    def body(s, x):
        return wr(I, s, a[0], vpush(rd(I, s, a[0]), x))
    return [(s, UNIT) for s in loop_over(I, st, ci, it, body)]


@model("Vec::len", "VecDeque::len", "slice::len", "String::len", "str::len")
def vlen(I, st, ci, a):
    return [(st, I.length(st, a[0]))]


@model("Vec::is_empty", "VecDeque::is_empty", "slice::is_empty", "String::is_empty", "str::is_empty")
def vempty(I, st, ci, a):
    return [(st, teq(I.length(st, a[0]), C(0)))]


@model("Vec::clear", "VecDeque::clear")
def vclear(I, st, ci, a):
    return [(wr(I, st, a[0], mk("veclit")), UNIT)]


@model("String::clear")
def sclear(I, st, ci, a):
    return [(wr(I, st, a[0], C("")), UNIT)]


@model("Vec::pop", "VecDeque::pop_back")
def vpop(I, st, ci, a):
    v = rd(I, st, a[0])
    if v.op == "push":
        return [(wr(I, st, a[0], v.args[0]), some(v.args[1]))]
    if v.op == "veclit":
        if not v.args:
            return [(st, NONE)]
        return [(wr(I, st, a[0], mk("veclit", *v.args[:-1])), some(v.args[-1]))]
    n = I.length(st, v)
    out = []
    for s, b in I.fork(st, teq(n, C(0))):
        if b:
            out.append((s, NONE))
        else:
            out.append((wr(I, s, a[0], mk("popped", v)), some(select(v, sub(n, C(1))))))
    return out


@model("VecDeque::pop_front")
def vpopf(I, st, ci, a):
    v = rd(I, st, a[0])
    if v.op == "veclit":
        if not v.args:
            return [(st, NONE)]
        return [(wr(I, st, a[0], mk("veclit", *v.args[1:])), some(v.args[0]))]
    n = I.length(st, v)
    out = []
    for s, b in I.fork(st, teq(n, C(0))):
        out.append((wr(I, s, a[0], mk("removed", v, C(0))), some(select(v, C(0)))) if b is False else (s, NONE))
    return out


@model("Vec::remove", "Vec::swap_remove")
def vremove(I, st, ci, a):
    v = rd(I, st, a[0])
    I.index_site(st, ci, a[0], a[1], None, "remove")
    swaps = norm(ci.info["path"]).endswith("swap_remove")
    if v.op == "veclit" and is_int(a[1]) and 0 <= a[1].args[0] < len(v.args):
        l = list(v.args)
        x = l.pop(a[1].args[0])
        if swaps and a[1].args[0] < len(l):
            l.insert(a[1].args[0], l.pop())
        return [(wr(I, st, a[0], mk("veclit", *l)), x)]
    return [(wr(I, st, a[0], mk("swapped_out" if swaps else "removed", v, a[1])), select(v, a[1]))]


@model("Vec::insert")
def vinsert(I, st, ci, a):
    v = rd(I, st, a[0])
    return [(wr(I, st, a[0], mk("inserted", v, a[1], a[2])), UNIT)]


@model("Vec::drain")
def vdrain(I, st, ci, a):
    if a[1].op == "S" and a[1].args[0] == "RangeFull":
        v = rd(I, st, a[0])
        return [(wr(I, st, a[0], mk("veclit")), S("VecIter", None, {"v": v, "pos": C(0), "end": I.length(st, v)}))]
    return None


@model("Vec::truncate")
def vtrunc(I, st, ci, a):
    return [(wr(I, st, a[0], mk("truncated", rd(I, st, a[0]), a[1])), UNIT)]


@model("Vec::resize")
def vresize(I, st, ci, a):
    v = rd(I, st, a[0])
    r = mk("from_elem", a[2], a[1]) if v.op == "veclit" and not v.args else mk("resized", v, a[1], a[2])
    return [(wr(I, st, a[0], r), UNIT)]


@model("slice::fill")
def sfill(I, st, ci, a):
    v = rd(I, st, a[0])
    return [(wr(I, st, a[0], mk("from_elem", a[1], I.length(st, v))), UNIT)]


@model("slice::copy_from_slice", "slice::clone_from_slice")
def scopy(I, st, ci, a):
    return [(wr(I, st, a[0], I.deep(st, a[1])), UNIT)]


@model("slice::swap")
def sswap(I, st, ci, a):
    v = rd(I, st, a[0])
    x, y = select(v, a[1]), select(v, a[2])
    return [(wr(I, st, a[0], store(store(v, a[1], y), a[2], x)), UNIT)]


@model("mem::swap")
def mswap(I, st, ci, a):
    x, y = rd(I, st, a[0]), rd(I, st, a[1])
    return [(wr(I, wr(I, st, a[0], y), a[1], x), UNIT)]


@model("mem::take")
def mtake(I, st, ci, a):
    d = dflt(I, st, ci, a)
    if not d:
        return None
    return [(wr(I, st, a[0], d[0][1]), rd(I, st, a[0]))]


@model("mem::replace")
def mrepl(I, st, ci, a):
    return [(wr(I, st, a[0], a[1]), rd(I, st, a[0]))]


def _perm(nm):
    def f(I, st, ci, a):
        v = rd(I, st, a[0])
        return [(wr(I, st, a[0], mk(nm, v, *[I.snapshot(st, x) for x in a[1:]])), UNIT)]
    return f


for _n in ("sort", "sort_by", "sort_by_key", "sort_unstable", "sort_unstable_by", "sort_unstable_by_key", "reverse"):
    MODELS["slice::" + _n] = _perm("sorted" if _n.startswith("sort") else "reversed")
MODELS["Vec::dedup"] = _perm("dedup")


@model("Vec::reserve", "Vec::shrink_to_fit", "Vec::reserve_exact", "mem::drop", "mem::forget")
def noop(I, st, ci, a):
    return [(st, UNIT)]


def contains_t(v, x):
    if v.op == "push":
        return tor(teq(v.args[1], x), contains_t(v.args[0], x))
    if v.op == "veclit":
        r = FALSE
        for y in v.args:
            r = tor(r, teq(y, x))
        return r
    return mk("contains", v, x)


@model("slice::contains", "Vec::contains")
def contains(I, st, ci, a):
    return [(st, contains_t(I.deep(st, a[0]), I.deep(st, a[1])))]


@model("RangeInclusive::contains", "Range::contains")
def rcontains(I, st, ci, a):
    r, x = I.deep(st, a[0]), I.deep(st, a[1])
    if r.op != "S":
        return None
    lo, hi = get_field(r, "start"), get_field(r, "end")
    if r.args[0] == "FloatRange":
        return [(st, tand(fle(lo, x), fle(x, hi)))]
    if any(t in FLOATS for t in ci.info.get("args") or []):
        return [(st, tand(fle(lo, x), flt(x, hi)))]
    return [(st, tand(tnot(tlt(x, lo)), tlt(x, hi)))]


@model("str::contains", "str::starts_with", "str::ends_with")
def scontains(I, st, ci, a):
    v, x = I.deep(st, a[0]), I.deep(st, a[1])
    m = norm(ci.info["path"]).split("::")[1]
    if is_c(v) and is_c(x):
        return [(st, C({"contains": x.args[0] in v.args[0], "starts_with": v.args[0].startswith(x.args[0]),
                        "ends_with": v.args[0].endswith(x.args[0])}[m]))]
    return [(st, mk("s." + m, v, x))]


@model("slice::first", "slice::last", "slice::first_mut", "slice::last_mut")
def first_last(I, st, ci, a):
    v = I.deep(st, a[0])
    n = I.length(st, v)
    out = []
    lastp = "last" in ci.info["path"].split("::")[-1]
    for s, b in I.fork(st, teq(n, C(0))):
        out.append((s, NONE if b else some(elem_ref(I, s, a[0], sub(n, C(1)) if lastp else C(0)))))
    return out


@model("slice::get", "slice::get_mut")
def sget(I, st, ci, a):
    if a[1].op == "S":
        return None
    n = I.length(st, a[0])
    return [(s, some(elem_ref(I, s, a[0], a[1])) if b else NONE) for s, b in I.fork(st, tlt(a[1], n))]


# ------------------------------------------------------------------ boxes, vec![..]
@model("Box::new_uninit")
def new_uninit(I, st, ci, a):
    s = st.copy()
    root = ("B", ci.fr, "box", ci.bi)
    s.mem[root] = mk("undef", "box")
    return [(s, S("Box", None, {"0": mk("&", root, ())}))]


@model("boxed::box_assume_init_into_vec_unsafe")
def box_vec(I, st, ci, a):
    p = get_field(a[0], "0")
    return [(st, I.read(st, p.args[0], tuple(p.args[1]) + (("F", "value"), ("F", "value"))))]


@model("Box::new", "Arc::new", "Rc::new")
def box_new(I, st, ci, a):
    s = st.copy()
    root = ("B", ci.fr, "box", ci.bi)
    s.mem[root] = a[0]
    return [(s, S("Box", None, {"0": mk("&", root, ())}))]


# ------------------------------------------------------------------ Option / Result / ?
def variants(I, st, v, pos, neg):
    """[(state, is_pos)] for an Option/Result value"""
    vn = I.variant_of(st, v)
    if vn is not None:
        return [(st, vn == pos)]
    s = st
    if v not in s.iv:
        s = s.copy()
        s.iv[v] = ("v", frozenset((pos, neg)))
    return I.fork(s, mk("isv", v, pos))


def pn(v, ci):
    isopt = "Option" in ci.name or "Option" in self_ty(ci)
    if v.op == "S" and v.args[0] in ("Option", "Result"):
        isopt = v.args[0] == "Option"
    return ("Some", "None") if isopt else ("Ok", "Err")


def pay(v, variant):
    return get_field(v, variant + ".0")


@model("Option::unwrap", "Result::unwrap", "Option::expect", "Result::expect")
def unwrap(I, st, ci, a):
    p, n = pn(a[0], ci)
    out = []
    for s, b in variants(I, st, a[0], p, n):
        if b:
            out.append((s, pay(a[0], p)))
        else:
            I.panics.append((ci.f.name, ci.line, "unwrap on " + n, s))
    return out


@model("Option::unwrap_or", "Result::unwrap_or")
def unwrap_or(I, st, ci, a):
    p, n = pn(a[0], ci)
    return [(s, pay(a[0], p) if b else a[1]) for s, b in variants(I, st, a[0], p, n)]


@model("Option::unwrap_or_default", "Result::unwrap_or_default")
def unwrap_or_d(I, st, ci, a):
    p, n = pn(a[0], ci)
    d = dflt(I, st, ci, a)
    if not d:
        return None
    return [(s, pay(a[0], p) if b else d[0][1]) for s, b in variants(I, st, a[0], p, n)]


@model("Option::is_some", "Result::is_ok")
def is_some(I, st, ci, a):
    v = I.deep(st, a[0])
    p, n = pn(v, ci)
    return [(s, C(b)) for s, b in variants(I, st, v, p, n)]


@model("Option::is_none", "Result::is_err")
def is_none(I, st, ci, a):
    v = I.deep(st, a[0])
    p, n = pn(v, ci)
    return [(s, C(not b)) for s, b in variants(I, st, v, p, n)]


@model("Result::ok")
def res_ok(I, st, ci, a):
    return [(s, some(pay(a[0], "Ok")) if b else NONE) for s, b in variants(I, st, a[0], "Ok", "Err")]


@model("Result::err")
def res_err(I, st, ci, a):
    return [(s, NONE if b else some(pay(a[0], "Err"))) for s, b in variants(I, st, a[0], "Ok", "Err")]


@model("Option::ok_or")
def ok_or(I, st, ci, a):
    return [(s, ok(pay(a[0], "Some")) if b else err(a[1])) for s, b in variants(I, st, a[0], "Some", "None")]


@model("Option::copied", "Option::cloned")
def opt_copied(I, st, ci, a):
    return [(s, some(I.deep(s, pay(a[0], "Some"))) if b else NONE) for s, b in variants(I, st, a[0], "Some", "None")]


@model("Option::as_ref", "Option::as_mut", "Result::as_ref", "Result::as_mut", "Option::as_deref")
def opt_as_ref(I, st, ci, a):
    v = rd(I, st, a[0])
    p, n = pn(v, ci)
    root, path = I.target(st, a[0])
    out = []
    for s, b in variants(I, st, v, p, n):
        if b:
            r = mk("&", root, tuple(path) + (("F", p + ".0"),))
            out.append((s, some(r) if p == "Some" else ok(r)))
        else:
            out.append((s, NONE if p == "Some" else err(pay(v, "Err"))))
    return out


def _opt_map(wrap_pos, on_pos, keep):
    pass


@model("Option::map", "Result::map")
def opt_map(I, st, ci, a):
    p, n = pn(a[0], ci)
    out = []
    for s, b in variants(I, st, a[0], p, n):
        if b:
            for s2, v in I.call_value(s, ci, a[1], [pay(a[0], p)], "map"):
                out.append((s2, some(v) if p == "Some" else ok(v)))
        else:
            out.append((s, NONE if p == "Some" else err(pay(a[0], "Err"))))
    return out


@model("Result::map_err")
def map_err(I, st, ci, a):
    out = []
    for s, b in variants(I, st, a[0], "Ok", "Err"):
        if b:
            out.append((s, ok(pay(a[0], "Ok"))))
        else:
            for s2, v in I.call_value(s, ci, a[1], [pay(a[0], "Err")], "map_err"):
                out.append((s2, err(v)))
    return out


@model("Option::and_then", "Result::and_then")
def and_then(I, st, ci, a):
    p, n = pn(a[0], ci)
    out = []
    for s, b in variants(I, st, a[0], p, n):
        if b:
            out += I.call_value(s, ci, a[1], [pay(a[0], p)], "and_then")
        else:
            out.append((s, NONE if p == "Some" else err(pay(a[0], "Err"))))
    return out


@model("Option::unwrap_or_else", "Result::unwrap_or_else")
def unwrap_or_else(I, st, ci, a):
    p, n = pn(a[0], ci)
    out = []
    for s, b in variants(I, st, a[0], p, n):
        if b:
            out.append((s, pay(a[0], p)))
        else:
            out += I.call_value(s, ci, a[1], [] if p == "Some" else [pay(a[0], "Err")], "uoe")
    return out


@model("Option::ok_or_else")
def ok_or_else(I, st, ci, a):
    out = []
    for s, b in variants(I, st, a[0], "Some", "None"):
        if b:
            out.append((s, ok(pay(a[0], "Some"))))
        else:
            for s2, v in I.call_value(s, ci, a[1], [], "ooe"):
                out.append((s2, err(v)))
    return out


@model("bool::then", "bool::then_some")
def bool_then(I, st, ci, a):
    out = []
    for s, yes in I.fork(st, a[0]):
        if not yes:
            out.append((s, NONE))
        elif ci.info.get("path", "").endswith("then_some"):
            out.append((s, some(a[1])))
        else:
            out += [(s2, some(v)) for s2, v in I.call_value(s, ci, a[1], [], "then")]
    return out


@model("Try::branch")
def branch(I, st, ci, a):
    p, n = pn(a[0], ci)
    out = []
    for s, b in variants(I, st, a[0], p, n):
        if b:
            out.append((s, S("ControlFlow", "Continue", {"Continue.0": pay(a[0], p)})))
        else:
            r = NONE if p == "Some" else err(pay(a[0], "Err"))
            out.append((s, S("ControlFlow", "Break", {"Break.0": r})))
    return out


@model("FromResidual::from_residual", "Try::from_output")
def from_residual(I, st, ci, a):
    if ci.info["path"].endswith("from_output"):
        return [(st, ok(a[0]))]
    return [(st, a[0])]


# ------------------------------------------------------------------ strings
@model("String::new")
def s_new(I, st, ci, a):
    return [(st, C(""))]


@model("String::push_str", "String::push")
def s_push(I, st, ci, a):
    v, x = rd(I, st, a[0]), I.deep(st, a[1])
    if is_c(v) and is_c(x):
        r = C(v.args[0] + x.args[0])
    elif v is C(""):
        r = x if norm(ci.info["path"]).endswith("push_str") else mk("sapp", v, x)
    else:
        r = mk("sapp", v, x)
    return [(wr(I, st, a[0], r), UNIT)]


@model("str::as_bytes", "String::into_bytes", "String::as_bytes", "str::into_bytes")
def s_bytes(I, st, ci, a):
    v = I.deep(st, a[0])
    r = mk("veclit", *[C(b) for b in v.args[0].encode()]) if is_c(v) else mk("bytes", v)
    if "as_bytes" in ci.info["path"]:
        return [(st, mk("&", ("K", r), ()))]
    return [(st, r)]


@model("String::pop")
def s_pop(I, st, ci, a):
    v = rd(I, st, a[0])
    o = mk("spop", v)
    return [(wr(I, st, a[0], mk("spopped", v)), o)]


@model("str::parse")
def s_parse(I, st, ci, a):
    ts = ci.info.get("args") or [""]
    return [(st, mk("parse", ts[-1], I.deep(st, a[0])))]


@model("str::replace", "str::trim", "str::to_lowercase", "str::to_uppercase")
def s_fn(I, st, ci, a):
    return [(st, mk("s." + norm(ci.info["path"]).split("::")[1], *[I.deep(st, x) for x in a]))]


# ------------------------------------------------------------------ iterators
ITERS = ("Range", "SliceIter", "VecIter", "Rev", "Enumerate", "Map", "Filter", "Zip", "Cloned", "Skip", "StepBy", "Take", "RangeFrom",
         "Chain", "FilterMap", "FlatMap")


@model("slice::iter", "slice::iter_mut", "Vec::iter", "Vec::iter_mut")
def s_iter(I, st, ci, a):
    return [(st, mk_slice_iter(I, st, a[0]))]


def mk_slice_iter(I, st, r):
    return S("SliceIter", None, {"of": r, "pos": C(0), "end": I.length(st, r)})


@model("IntoIterator::into_iter")
def into_iter(I, st, ci, a):
    v = a[0]
    if v.op == "&":
        d = rd(I, st, v)
        if d.op == "S" and d.args[0] in ITERS:
            return [(st, v)]
        return [(st, mk_slice_iter(I, st, v))]
    if v.op == "S" and v.args[0] in ITERS:
        return [(st, v)]
    t = self_ty(ci)
    if re.match(r"&('\w+ )?(mut )?((alloc|std)::vec::Vec\b|\[)", t):
        return [(st, mk_slice_iter(I, st, v))]
    if t.startswith("alloc::vec::Vec") or t.startswith("std::vec::Vec") or t.startswith("[") or v.op in ("veclit", "push", "from_elem", "store"):
        return [(st, S("VecIter", None, {"v": v, "pos": C(0), "end": I.length(st, v)}))]
    return [(st, v)]


@model("RangeInclusive::new")
def ri_new(I, st, ci, a):
    if any(is_c(x) and isinstance(x.args[0], float) for x in a) or ci is not None and any(x in FLOATS for x in ci.info.get("args") or []):
        return [(st, S("FloatRange", None, {"start": a[0], "end": a[1]}))]
    return [(st, S("Range", None, {"start": a[0], "end": after(a[1])}))]


def after(x):
    """the value behind x, a number or a character"""
    if x.op == "c" and isinstance(x.args[0], str):
        return C(chr(ord(x.args[0]) + 1))
    return add(x, C(1))


@model("char::is_ascii_digit", "u8::is_ascii_digit")
def ascii_digit(I, st, ci, a):
    x = I.deep(st, a[0])
    lo, hi = (C("0"), C(":")) if "char" in ci.name else (C(48), C(58))
    return [(st, tand(tnot(tlt(x, lo)), tlt(x, hi)))]


def char_list(it):
    """the characters of a text, as a list that is gone through"""
    if it.op == "call" and it.args[0].endswith("::chars") and len(it.args[1]) == 1:
        v = mk("charsof", it.args[1][0])
        return S("VecIter", None, {"v": v, "pos": C(0), "end": mk("len", v)})
    return it


def adaptor(ty, **f):
    def m(I, st, ci, a):
        a = [char_list(a[0]), *a[1:]]
        it = a[0]
        if it.op != "S" or it.args[0] not in ITERS:
            return None
        return [(st, S(ty, None, {k: g(I, st, it, a) for k, g in f.items()}))]
    return m


def _fresh(it):
    """the starting index of an iterator, so that an enumeration counter is a function of the position"""
    if it.op == "S":
        if it.args[0] in ("SliceIter", "VecIter"):
            return get_field(it, "pos")
        if it.args[0] in ("Cloned", "Map"):
            return _fresh(get_field(it, "it"))
        if it.args[0] == "Range":
            return get_field(it, "start")
        if it.args[0] == "Rev":
            return get_field(it, "n") if False else None
    return None


MODELS["Iterator::rev"] = adaptor("Rev", it=lambda I, st, it, a: it)
MODELS["Iterator::enumerate"] = adaptor("Enumerate", it=lambda I, st, it, a: it, base=lambda I, st, it, a: _fresh(it) or C(0), n=lambda I, st, it, a: C(0))
MODELS["Iterator::map"] = adaptor("Map", it=lambda I, st, it, a: it, f=lambda I, st, it, a: a[1])
MODELS["Iterator::filter"] = adaptor("Filter", it=lambda I, st, it, a: it, f=lambda I, st, it, a: a[1])
MODELS["Iterator::filter_map"] = adaptor("FilterMap", it=lambda I, st, it, a: it, f=lambda I, st, it, a: a[1])
MODELS["Iterator::flat_map"] = adaptor("FlatMap", it=lambda I, st, it, a: it, f=lambda I, st, it, a: a[1])
MODELS["Iterator::flatten"] = adaptor("FlatMap", it=lambda I, st, it, a: it, f=lambda I, st, it, a: UNIT)
MODELS["Iterator::cloned"] = adaptor("Cloned", it=lambda I, st, it, a: it)
MODELS["Iterator::copied"] = MODELS["Iterator::cloned"]


@model("Iterator::by_ref")
def by_ref(I, st, ci, a):
    return [(st, a[0])]


@model("Iterator::zip")
def zipm(I, st, ci, a):
    x, y = a
    if y.op == "&" :
        y = mk_slice_iter(I, st, y)
    elif y.op in ("veclit", "push", "from_elem"):
        y = S("VecIter", None, {"v": y, "pos": C(0), "end": I.length(st, y)})
    if x.op != "S" or y.op != "S":
        return None
    # iterators that go by position go in step: the second's position is told by the first's
    p, q = _pos(x), _pos(y)
    d = sub(q, p) if p is not None and q is not None else None
    return [(st, S("Zip", None, {"a": x, "b": y, "d": d if d is not None and is_int(d) else NONE}))]


def _pos(it):
    k = it.args[0] if it.op == "S" else None
    return get_field(it, "pos") if k in ("SliceIter", "VecIter") else get_field(it, "start") if k in ("Range", "RangeFrom") else _pos(get_field(it, "it")) if k in ("Cloned", "Map") or k == "Enumerate" and _fresh(get_field(it, "it")) is not None else None


def _at_pos(it, p):
    k = it.args[0]
    return set_field(it, "pos", p) if k in ("SliceIter", "VecIter") else set_field(it, "start", p) if k in ("Range", "RangeFrom") else set_field(it, "it", _at_pos(get_field(it, "it"), p))


@model("Iterator::skip")
def skipm(I, st, ci, a):
    it = a[0]
    if it.op == "S" and it.args[0] in ("SliceIter", "VecIter"):
        p = add(get_field(it, "pos"), a[1])
        return [(st, set_field(it, "pos", p))]
    if it.op == "S" and it.args[0] == "Range":
        return [(st, set_field(it, "start", add(get_field(it, "start"), a[1])))]
    return None


@model("Iterator::take")
def takem(I, st, ci, a):
    it = char_list(a[0])
    if it.op == "S" and it.args[0] == "Enumerate":
        r = takem(I, st, ci, [get_field(it, "it"), a[1]])
        return None if r is None else [(s, set_field(it, "it", v)) for s, v in r]
    if it.op == "S" and it.args[0] in ("SliceIter", "VecIter"):
        return [(st, set_field(it, "end", tmin(get_field(it, "end"), add(get_field(it, "pos"), a[1]))))]
    return None


@model("Iterator::step_by")
def stepm(I, st, ci, a):
    it = a[0]
    if it.op == "S" and it.args[0] == "Range":
        return [(st, S("StepBy", None, {"it": it, "k": a[1]}))]
    return None


def iter_next(I, st, ci, it):
    """[(state, new iterator, element or None)]; None when the iterator is not understood"""
    if it.op != "S":
        return None
    k = it.args[0]
    if k == "Range":
        lo, hi = get_field(it, "start"), get_field(it, "end")
        out = []
        for s, b in I.fork(st, tlt(lo, hi)):
            out.append((s, set_field(it, "start", add(lo, C(1))), lo) if b else (s, it, None))
        return out
    if k == "RangeFrom":
        lo = get_field(it, "start")
        return [(st, set_field(it, "start", add(lo, C(1))), lo)]
    if k == "StepBy":
        r = get_field(it, "it")
        lo, hi = get_field(r, "start"), get_field(r, "end")
        out = []
        for s, b in I.fork(st, tlt(lo, hi)):
            out.append((s, set_field(it, "it", set_field(r, "start", add(lo, get_field(it, "k")))), lo) if b else (s, it, None))
        return out
    if k in ("SliceIter", "VecIter"):
        p, e = get_field(it, "pos"), get_field(it, "end")
        out = []
        for s, b in I.fork(st, tlt(p, e)):
            if not b:
                out.append((s, it, None))
                continue
            x = elem_ref(I, s, get_field(it, "of"), p) if k == "SliceIter" else select(get_field(it, "v"), p)
            out.append((s, set_field(it, "pos", add(p, C(1))), x))
        return out
    if k == "Rev":
        j = get_field(it, "it")
        if j.op != "S":
            return None
        if j.args[0] == "Range":
            lo, hi = get_field(j, "start"), get_field(j, "end")
            out = []
            for s, b in I.fork(st, tlt(lo, hi)):
                out.append((s, set_field(it, "it", set_field(j, "end", sub(hi, C(1)))), sub(hi, C(1))) if b else (s, it, None))
            return out
        if j.args[0] in ("SliceIter", "VecIter"):
            p, e = get_field(j, "pos"), get_field(j, "end")
            out = []
            for s, b in I.fork(st, tlt(p, e)):
                if not b:
                    out.append((s, it, None))
                    continue
                q = sub(e, C(1))
                x = elem_ref(I, s, get_field(j, "of"), q) if j.args[0] == "SliceIter" else select(get_field(j, "v"), q)
                out.append((s, set_field(it, "it", set_field(j, "end", q)), x))
            return out
        if j.args[0] == "Enumerate":
            jj = get_field(j, "it")
            if jj.op == "S" and jj.args[0] in ("SliceIter", "VecIter"):
                p, e = get_field(jj, "pos"), get_field(jj, "end")
                out = []
                for s, b in I.fork(st, tlt(p, e)):
                    if not b:
                        out.append((s, it, None))
                        continue
                    q = sub(e, C(1))
                    x = elem_ref(I, s, get_field(jj, "of"), q) if jj.args[0] == "SliceIter" else select(get_field(jj, "v"), q)
                    out.append((s, set_field(it, "it", set_field(j, "it", set_field(jj, "end", q))), S("tuple", None, {"0": q, "1": x})))
                return out
        return None
    if k == "Enumerate":
        j = get_field(it, "it")
        r = iter_next(I, st, ci, j)
        if r is None:
            return None
        out = []
        base = _fresh(j)
        for s, nj, x in r:
            if x is None:
                out.append((s, set_field(it, "it", nj), None))
            else:
                i = sub(base, get_field(it, "base")) if base is not None else get_field(it, "n")
                ni = set_field(it, "it", nj)
                if base is None:
                    ni = set_field(ni, "n", add(i, C(1)))
                out.append((s, ni, S("tuple", None, {"0": i, "1": x})))
        return out
    if k == "Cloned":
        r = iter_next(I, st, ci, get_field(it, "it"))
        return None if r is None else [(s, set_field(it, "it", j), None if x is None else rd(I, s, x)) for s, j, x in r]
    if k == "Map":
        r = iter_next(I, st, ci, get_field(it, "it"))
        if r is None:
            return None
        out = []
        for s, j, x in r:
            ni = set_field(it, "it", j)
            if x is None:
                out.append((s, ni, None))
            else:
                for s2, v in I.call_value(s, ci, get_field(it, "f"), [x], "itmap"):
                    out.append((s2, ni, v))
        return out
    if k == "Zip":
        r = iter_next(I, st, ci, get_field(it, "a"))
        if r is None:
            return None
        out = []
        for s, j, x in r:
            if x is None:
                out.append((s, set_field(it, "a", j), None))
                continue
            other, d, p = get_field(it, "b"), get_field(it, "d"), _pos(get_field(it, "a"))
            if d is not NONE and p is not None:
                other = _at_pos(other, add(p, d))
            r2 = iter_next(I, s, ci, other)
            if r2 is None:
                return None
            for s2, j2, y in r2:
                ni = set_field(set_field(it, "a", j), "b", j2)
                out.append((s2, ni, None if y is None else S("tuple", None, {"0": x, "1": y})))
        return out
    return None


@model("Iterator::next", "DoubleEndedIterator::next_back")
def it_next(I, st, ci, a):
    it = rd(I, st, a[0])
    if ci.info.get("path", "").endswith("next_back"):
        r = iter_next(I, st, ci, S("Rev", None, {"it": it}))
        if r is None:
            return None
        return [(wr(I, s, a[0], get_field(j, "it")), NONE if x is None else some(x)) for s, j, x in r]
    if it.op == "S" and it.args[0] == "Filter":
        # abstract loop over the elements until the predicate accepts one
        out = []
        if ci.bi in I.cfg(ci.f)["loops"]:
            # the call heads a loop itself: a rejected element is a turn of that one
            r = iter_next(I, st, ci, get_field(it, "it"))
            for s2, nj, x in r or []:
                s3 = wr(I, s2, a[0], set_field(it, "it", nj))
                if x is None:
                    out.append((s3, NONE))
                    continue
                root = ("I", ci.fr, "fx", ci.bi)
                s3 = s3.copy()
                s3.mem[root] = x
                for s4, c in I.call_value(s3, ci, get_field(it, "f"), [mk("&", root, ())], "flt"):
                    for s5, b in I.fork(s4, c):
                        v = I.read(s5, root, ())
                        s5 = s5.copy()
                        s5.mem.pop(root, None)
                        out.append((s5, some(v) if b else mk("again")))
            if r is not None:
                return out
        s0 = st
        acc = []

        def body(s):
            res = []
            j = rd(I, s, a[0])
            r = iter_next(I, s, ci, get_field(j, "it"))
            if r is None:
                return res
            for s2, nj, x in r:
                s3 = wr(I, s2, a[0], set_field(j, "it", nj))
                if x is None:
                    acc.append((s3, NONE))
                    continue
                root = ("I", ci.fr, "fx", ci.bi)
                s3.mem[root] = x
                for s4, c in I.call_value(s3, ci, get_field(j, "f"), [mk("&", root, ())], "flt"):
                    for s5, b in I.fork(s4, c):
                        if b:
                            acc.append((s5, some(I.read(s5, root, ()))))
                        else:
                            res.append(s5)
            return res
        I.iterate(s0, ci, "filter", body)
        for s, v in acc:
            s = s.copy()
            s.mem.pop(("I", ci.fr, "fx", ci.bi), None)
            out.append((s, v))
        return out
    r = iter_next(I, st, ci, it)
    if r is None:
        return None
    return [(wr(I, s, a[0], j), NONE if x is None else some(x)) for s, j, x in r]


def loop_over(I, st, ci, it, body, stop=None, tag=""):
    """abstract iteration; body(state, elem) -> state | [states]; returns the exhausted states"""
    if layered(it):
        return through(I, st, ci, it, body, tag)
    root = ("I", ci.fr, "it" + tag, ci.bi)
    s = st.copy()
    s.mem[root] = it
    done = []

    def step(s0):
        back = []
        j = I.read(s0, root, ())
        r = it_next_generic(I, s0, ci, j)
        if r is None:
            r = []
            # unknown iterator: an unknown element, or the end
            x = mk("elem", I.snapshot(s0, j), tag)
            r = [(s0, j, x), (s0, j, None)]
        for s1, nj, x in r:
            s1 = s1.copy()
            s1.mem[root] = nj
            if x is None:
                done.append(s1)
                I.leaves.setdefault((ci.fr, ("it", ci.bi, "loop" + tag)), []).append(s1)
                continue
            b = body(s1, x)
            back += b if isinstance(b, list) else [b]
        return back
    n = I.turns_left(it) if I.unroll else None
    if n is not None and n <= I.unroll:
        cur = [s]
        for _ in range(n + 1):
            cur = [y for x in cur for y in step(x)]
    else:
        I.iterate(s, ci, "loop" + tag, step)
    out = []
    for d in done:
        d = d.copy()
        d.mem.pop(root, None)
        out.append(d)
    return out


def layered(it, top=True):
    """a chain of adaptors that has to be gone through layer by layer"""
    if it.op != "S":
        return False
    if it.args[0] in ("FlatMap", "FilterMap"):
        return True
    if it.args[0] in ("Map", "Filter", "Cloned"):
        j = get_field(it, "it")
        return layered(j, False) or j.op == "S" and j.args[0] == "Filter"
    return False


def through(I, st, ci, it, body, tag):
    """what happens to the elements of the chain `it`, as loops over its sources: an adaptor becomes a part of the loop's body"""
    def many(b):
        return b if isinstance(b, list) else [b]
    if it.op != "S" or it.args[0] not in ("FlatMap", "FilterMap", "Map", "Filter", "Cloned"):
        return loop_over(I, st, ci, it, wrap_skip(body), tag=tag)
    kind, f, j = it.args[0], get_field(it, "f") if it.args[0] != "Cloned" else None, get_field(it, "it")
    if kind == "FlatMap":
        def inner(s, x):
            out = []
            for s2, v in [(s, x)] if f is UNIT else I.call_value(s, ci, f, [x], "flat" + tag):
                if v.op == "S" and v.args[0] in ("Option", "Result"):
                    p, n = ("Some", "None") if v.args[0] == "Option" else ("Ok", "Err")
                    out += [z for s3, b in variants(I, s2, v, p, n) for z in (many(body(s3, pay(v, p))) if b else [s3])]
                    continue
                if not (v.op == "S" and v.args[0] in ITERS):
                    v = mk_slice_iter(I, s2, v) if v.op == "&" else S("VecIter", None, {"v": v, "pos": C(0), "end": I.length(s2, v)})
                out += loop_over(I, s2, ci, v, body, tag=tag + "+")
            return out
        return through(I, st, ci, j, inner, tag)
    if kind == "Map":
        return through(I, st, ci, j, lambda s, x: [z for s2, v in I.call_value(s, ci, f, [x], "itmap" + tag) for z in many(body(s2, v))], tag)
    if kind == "Cloned":
        return through(I, st, ci, j, lambda s, x: many(body(s, rd(I, s, x) if x.op == "&" else x)), tag)
    if kind == "FilterMap":
        return through(I, st, ci, j, lambda s, x: [z for s2, v in I.call_value(s, ci, f, [x], "fmap" + tag) for s3, b in variants(I, s2, v, "Some", "None") for z in (many(body(s3, pay(v, "Some"))) if b else [s3])], tag)

    def kept(s, x):
        out = []
        root = ("I", ci.fr, "fx" + tag, ci.bi)
        s = s.copy()
        s.mem[root] = x
        for s2, c in I.call_value(s, ci, f, [mk("&", root, ())], "flt" + tag):
            for s3, b in I.fork(s2, c):
                s3 = s3.copy()
                v = s3.mem.pop(root, x)
                out += many(body(s3, v)) if b else [s3]
        return out
    return through(I, st, ci, j, kept, tag)


def it_next_generic(I, st, ci, j):
    if j.op == "S" and j.args[0] == "Filter":
        r = iter_next(I, st, ci, get_field(j, "it"))
        if r is None:
            return None
        out = []
        for s2, nj, x in r:
            ni = set_field(j, "it", nj)
            if x is None:
                out.append((s2, ni, None))
                continue
            root = ("I", ci.fr, "fx", ci.bi)
            s2 = s2.copy()
            s2.mem[root] = x
            for s4, c in I.call_value(s2, ci, get_field(j, "f"), [mk("&", root, ())], "flt"):
                for s5, b in I.fork(s4, c):
                    s5 = s5.copy()
                    v = s5.mem.pop(root, x)
                    if b:
                        out.append((s5, ni, v))
                    else:
                        out.append((s5, ni, SKIP))
        return out
    return iter_next(I, st, ci, j)


SKIP = mk("skip")


def wrap_skip(body):
    def f(s, x):
        if x is SKIP:
            return [s]
        return body(s, x)
    return f


def as_iter(I, st, v):
    if v.op == "&":
        d = rd(I, st, v)
        if d.op == "S" and d.args[0] in ITERS:
            return d
        return mk_slice_iter(I, st, v) if d.op in ("veclit", "push", "from_elem", "store") else d
    return v


@model("Iterator::for_each")
def for_each(I, st, ci, a):
    def body(s, x):
        return [s2 for s2, _ in I.call_value(s, ci, a[1], [x], "fe")]
    return [(s, UNIT) for s in loop_over(I, st, ci, as_iter(I, st, a[0]), wrap_skip(body))]


def membership(I, st, ci, it, clos):
    """any(|p| *p == (x, y)) over a whole list asks whether the list contains (x, y)"""
    if it.op != "S" or it.args[0] != "SliceIter":
        return None
    of = get_field(it, "of")
    if get_field(it, "pos") is not C(0) or get_field(it, "end") is not I.length(st, of):
        return None
    root = ("I", ci.fr, "probe", ci.bi)
    el = mk("probe")
    s = st.copy()
    s.mem[root] = el
    try:
        res = I.call_value(s, ci, clos, [mk("&", root, ())], "probe")
    except Exception:
        return None
    if len(res) != 1:
        return None
    got, parts, work = {}, [], [res[0][1]]
    while work:
        t = work.pop()
        if t.op == "and":
            work += list(t.args)
        else:
            parts.append(t)
    for t in parts:
        if t.op != "eq":
            return None
        for x, y in (t.args, t.args[::-1]):
            if x.op == "." and x.args[0] is el and not mentions(y, lambda z: z is el):
                got[x.args[1]] = y
    if len(parts) < 2 or len(got) != len(parts) or set(got) != {str(i) for i in range(len(parts))}:
        return None
    return [(st, contains_t(I.deep(st, of), S("tuple", None, got)))]


def search(kind):
    def m(I, st, ci, a):
        hits = []
        it = as_iter(I, st, a[0])
        k0 = _fresh(it)
        if kind == "any":
            r = membership(I, st, ci, it, a[1])
            if r is not None:
                return r
        root = ("I", ci.fr, "it" + kind, ci.bi)

        def body(s, x):
            back = []
            arg = x
            if kind == "find":
                r2 = ("I", ci.fr, "fx", ci.bi)
                s = s.copy()
                s.mem[r2] = x
                arg = mk("&", r2, ())
            for s2, c in I.call_value(s, ci, a[1], [arg], kind):
                for s3, b in I.fork(s2, c):
                    hit = b if kind != "all" else not b
                    if hit:
                        if kind == "any":
                            v = TRUE
                        elif kind == "all":
                            v = FALSE
                        elif kind == "find":
                            v = some(x)
                        else:
                            f = _fresh(I.read(s3, root, ()))
                            v = some(sub(sub(f, C(1)), k0)) if f is not None and k0 is not None else some(mk("pos", a[0]))
                        I.leaves.setdefault((ci.fr, ("it", ci.bi, "loop" + kind)), []).append(s3)
                        s4 = s3.copy()
                        for r2 in [r2 for r2 in s4.mem if r2[0] == "I" and r2[1] == ci.fr and r2[-1] == ci.bi and str(r2[2]).startswith("it" + kind)]:
                            s4.mem.pop(r2, None)
                        hits.append((s4, v))
                    else:
                        back.append(s3)
            return back
        done = loop_over(I, st, ci, it, wrap_skip(body), tag=kind)
        dv = {"any": FALSE, "all": TRUE, "find": NONE, "position": NONE}[kind]
        return hits + [(s, dv) for s in done]
    return m


for _k in ("any", "all", "find", "position"):
    MODELS["Iterator::" + _k] = search(_k)


def accumulate(I, st, ci, it, init, stepf, tag):
    root = ("I", ci.fr, "acc" + tag, ci.bi)
    s = st.copy()
    s.mem[root] = init

    def body(s0, x):
        out = []
        acc = I.read(s0, root, ())
        for s1, v in stepf(s0, acc, x):
            s1 = s1.copy()
            s1.mem[root] = v
            out.append(s1)
        return out
    out = []
    for d in loop_over(I, s, ci, it, wrap_skip(body), tag=tag):
        v = d.mem.pop(root)
        out.append((d, v))
    return out


@model("Iterator::fold")
def fold(I, st, ci, a):
    return accumulate(I, st, ci, as_iter(I, st, a[0]), a[1], lambda s, acc, x: I.call_value(s, ci, a[2], [acc, x], "fold"), "fold")


def tried(init_of, stepf):
    """try_for_each, try_fold: on while the closure answers Ok (Some), else its answer"""
    def m(I, st, ci, a):
        opt = "Option<" in str((ci.info.get("args") or [""])[-1])
        root = ("I", ci.fr, "acctry", ci.bi)
        good, bad = ("Some", "None") if opt else ("Ok", "Err")
        s = st.copy()
        s.mem[root] = init_of(a)
        hits = []

        def body(s0, x):
            back = []
            for s1, v in stepf(I, s0, ci, a, I.read(s0, root, ()), x):
                for s2, b in variants(I, s1, v, good, bad):
                    s2 = s2.copy()
                    if b:
                        s2.mem[root] = pay(v, good)
                        back.append(s2)
                    else:
                        I.leaves.setdefault((ci.fr, ("it", ci.bi, "looptry")), []).append(s2)
                        s2 = s2.copy()
                        s2.mem.pop(root, None)
                        s2.mem.pop(("I", ci.fr, "ittry", ci.bi), None)
                        hits.append((s2, NONE if opt else err(pay(v, "Err"))))
            return back
        out = []
        for d in loop_over(I, s, ci, as_iter(I, s, a[0]), wrap_skip(body), tag="try"):
            v = d.mem.pop(root)
            out.append((d, some(v) if opt else ok(v)))
        return hits + out
    return m


MODELS["Iterator::try_for_each"] = tried(lambda a: UNIT, lambda I, s, ci, a, acc, x: I.call_value(s, ci, a[1], [x], "tryfe"))
MODELS["Iterator::try_fold"] = tried(lambda a: a[1], lambda I, s, ci, a, acc, x: I.call_value(s, ci, a[2], [acc, x], "tryfold"))


@model("Iterator::sum")
def isum(I, st, ci, a):
    t = (ci.info.get("args") or ["", ""])[-1]
    fl = t in FLOATS
    return accumulate(I, st, ci, as_iter(I, st, a[0]), C(0.0) if fl else C(0),
                      lambda s, acc, x: [(s, I.binop(s, "Add", acc, I.deep(s, x), t))], "sum")


@model("Iterator::count")
def icount(I, st, ci, a):
    return accumulate(I, st, ci, as_iter(I, st, a[0]), C(0), lambda s, acc, x: [(s, add(acc, C(1)))], "count")


def collected(I, st, it):
    """closed form of collecting an unmodified slice"""
    if it.op == "S" and it.args[0] == "Cloned":
        j = get_field(it, "it")
        if j.op == "S" and j.args[0] == "SliceIter" and get_field(j, "pos") is C(0):
            v = I.deep(st, get_field(j, "of"))
            if I.length(st, v) is get_field(j, "end"):
                return v
    if it.op == "S" and it.args[0] == "VecIter" and get_field(it, "pos") is C(0):
        v = get_field(it, "v")
        if I.length(st, v) is get_field(it, "end"):
            return v
    return None


@model("Iterator::collect", "Itertools::collect_vec")
def collect(I, st, ci, a):
    it = as_iter(I, st, a[0])
    if it.op != "S" or it.args[0] not in ITERS:
        return None
    ts = ci.info.get("args") or [""]
    if "Vec<" not in ts[-1] and "VecDeque<" not in ts[-1] and "collect_vec" not in ci.info["path"]:
        return None
    v = collected(I, st, it)
    if v is not None:
        return [(st, v)]
    return accumulate(I, st, ci, it, mk("veclit"), lambda s, acc, x: [(s, vpush(acc, x))], "collect")


# ------------------------------------------------------------------ nondeterminism, effects
def impure(tag):
    def m(I, st, ci, a):
        I.effects.append((tag, ci.f.name, ci.line, ci.name))
        return [(st, mk("env", tag, ci.fr, ci.bi))]
    return m


MODELS["SystemTime::now"] = impure("clock")
MODELS["Instant::now"] = impure("clock")
MODELS["rand::thread_rng"] = impure("rng")


for _n in ("Instant::duration_since", "SystemTime::duration_since", "Duration::as_millis", "Duration::as_micros", "Duration::as_secs",
           "Instant::elapsed", "Duration::as_secs_f64"):
    def _pure(I, st, ci, a, n=_n):
        return [(st, mk("time." + n, *[I.deep(st, x) for x in a]))]
    MODELS[_n] = _pure


@model("Rng::gen_range")
def gen_range(I, st, ci, a):
    I.effects.append(("rng", ci.f.name, ci.line, ci.name))
    r = a[1]
    t = mk("env", "rand", ci.fr, ci.bi)
    return [(st, t)]


@model("SliceRandom::shuffle")
def shuffle(I, st, ci, a):
    I.effects.append(("rng", ci.f.name, ci.line, ci.name))
    v = rd(I, st, a[0])
    return [(wr(I, st, a[0], mk("shuffled", v, ci.fr, ci.bi)), UNIT)]


# ------------------------------------------------------------------ formatting (pure)
@model("fmt::format")
def fmt_format(I, st, ci, a):
    v = I.snapshot(st, a[0])
    x = sole_display(v)
    if x is not None and x.op == "c":
        if isinstance(x.args[0], str) or type(x.args[0]) is int:
            return [(st, C(str(x.args[0])))]
    elif x is not None:
        return [(st, mk("tostr", x))]
    return [(st, mk("format", v))]


def sole_display(v):
    """x where the text is that of `{}` applied to x and nothing else"""
    if v.op != "call" or not str(v.args[0]).endswith("Arguments::new") or len(v.args[1]) != 2:
        return None
    tpl, args = (t.args[0] if t.op == "ref" else t for t in v.args[1])
    if tpl.op != "veclit" or [t.args[0] for t in tpl.args if t.op == "c"] != [192, 0] or len(tpl.args) != 2 or args.op != "veclit" or len(args.args) != 1:
        return None
    d = args.args[0]
    if d.op != "call" or not str(d.args[0]).endswith("Argument::new_display"):
        return None
    x = d.args[1][0]
    return x.args[0] if x.op == "ref" else x


@model("io::_print", "io::_eprint")
def print_(I, st, ci, a):
    return [(st, UNIT)]


@model("rt::panic_fmt", "panicking::panic", "panicking::panic_fmt", "panicking::panic_display")
def do_panic(I, st, ci, a):
    return [(st, mk("never"))]


PURE_NAMES = {"Argument::new_display", "Argument::new_debug", "Arguments::new", "Arguments::from_str", "Arguments::new_const", "Arguments::new_v1",
              "Path::new", "Argument::new_lower_hex", "Argument::new_upper_hex"}
for _n in PURE_NAMES:
    def _p(I, st, ci, a):
        return [(st, mk("call", norm(ci.name), tuple(I.snapshot(st, x) for x in a)))]
    MODELS[_n] = _p


@model("Path::exists")
def path_exists(I, st, ci, a):
    I.effects.append(("fs", ci.f.name, ci.line, ci.name))
    return [(st, mk("exists", I.snapshot(st, a[0])))]
