"""Hash-consed value terms (the value-numbering domain of the abstract interpreter)."""


class T:
    __slots__ = ("op", "args", "id", "__weakref__")

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


_tab = {}
_n = [0]


def _key(a):
    if isinstance(a, T):
        return ("T", a.id)
    if isinstance(a, tuple):
        return ("t",) + tuple(_key(x) for x in a)
    return (type(a).__name__, a)


def mk(op, *args):
    k = (op,) + tuple(_key(a) for a in args)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.id = _n[0]
        _n[0] += 1
        _tab[k] = t
    return t


def C(v):
    return mk("c", v)


TRUE = C(True)
FALSE = C(False)
UNIT = mk("S", "()", None, None, ())


def is_c(t):
    return t.op == "c"


def is_int(t):
    return t.op == "c" and type(t.args[0]) is int


# ---- structures -------------------------------------------------------------------------------

def S(ty, variant, fields, base=None):
    return mk("S", ty, variant, base, tuple(sorted(fields.items())))


def sfields(t):
    return dict(t.args[3])


def get_field(t, key):
    if t.op == "S":
        for k, v in t.args[3]:
            if k == key:
                return v
        if t.args[2] is not None:
            return get_field(t.args[2], key)
        return mk(".", t, key)
    if t.op == "veclit" and key in ("0",):
        return mk(".", t, key)
    return mk(".", t, key)


def set_field(t, key, v):
    if t.op == "S":
        f = sfields(t)
        if t.args[2] is not None and get_field(t.args[2], key) is v:
            f.pop(key, None)
            if not f:
                return t.args[2]
        else:
            f[key] = v
        return mk("S", t.args[0], t.args[1], t.args[2], tuple(sorted(f.items())))
    if get_field(t, key) is v:
        return t
    return mk("S", None, None, t, ((key, v),))


def select(t, i):
    while t.op == "store":
        if t.args[1] is i:
            return t.args[2]
        if is_c(t.args[1]) and is_c(i):
            t = t.args[0]
            continue
        # index terms that differ by a non-zero constant cannot alias
        d = sub(t.args[1], i)
        if is_int(d) and d.args[0] != 0:
            t = t.args[0]
            continue
        break
    if t.op == "slice":
        return select(t.args[0], add(t.args[1], i))
    if t.op == "from_elem":
        return t.args[0]
    if t.op == "veclit" and is_int(i) and 0 <= i.args[0] < len(t.args):
        return t.args[i.args[0]]
    if t.op == "push" and is_int(i):
        # an element below a known length
        items = []
        b = t
        while b.op == "push":
            items.append(b.args[1])
            b = b.args[0]
        if b.op in ("veclit",):
            items.reverse()
            allv = list(b.args) + items
            if i.args[0] < len(allv):
                return allv[i.args[0]]
    return mk("sel", t, i)


def store(t, i, v):
    if select(t, i) is v:
        return t
    if t.op == "store" and t.args[1] is i:
        return store(t.args[0], i, v)
    if t.op == "veclit" and is_int(i) and 0 <= i.args[0] < len(t.args):
        a = list(t.args)
        a[i.args[0]] = v
        return mk("veclit", *a)
    return mk("store", t, i, v)


def at_index(path, i):
    """path of element i of what path points to; an element of a range is the element of the whole"""
    if path and path[-1][0] == "R":
        return at_index(tuple(path[:-1]), add(path[-1][1], i))
    return tuple(path) + (("I", i),)


# ---- integer arithmetic (linear normal form) ---------------------------------------------------

BOUND = {}  # term -> (lo, hi) known from its machine type


def bound(t):
    if is_int(t):
        return (t.args[0], t.args[0])
    b = BOUND.get(t)
    if b:
        return b
    if t.op == "lin":
        lo = hi = t.args[0]
        for x, k in t.args[1]:
            l, h = bound(x)
            if k < 0:
                l, h = h, l
            lo = None if lo is None or l is None else lo + k * l
            hi = None if hi is None or h is None else hi + k * h
        return (lo, hi)
    if t.op == "mod" and is_int(t.args[1]) or t.op == "emod" and is_int(t.args[1]) and t.args[1].args[0] > 0:
        return (0, t.args[1].args[0] - 1)
    if t.op == "srem" and is_int(t.args[1]):
        k = abs(t.args[1].args[0]) - 1
        return (-k, k)
    if t.op == "len":
        return (0, None)
    if t.op == "div" and is_int(t.args[1]):
        l, h = bound(t.args[0])
        k = t.args[1].args[0]
        if k > 0 and l is not None and l >= 0:
            return (l // k, None if h is None else h // k)
    if t.op in ("max", "min"):
        a, b = bound(t.args[0]), bound(t.args[1])
        f = max if t.op == "max" else min

        def cmb(x, y, side):
            if x is None or y is None:
                # max: lo is at least either known lo; min: hi is at most either known hi
                if (t.op == "max" and side == 0) or (t.op == "min" and side == 1):
                    return x if y is None else y
                return None
            return f(x, y)
        return (cmb(a[0], b[0], 0), cmb(a[1], b[1], 1))
    return (None, None)


def _lin(t):
    if is_int(t):
        return t.args[0], {}
    if t.op == "lin":
        return t.args[0], dict(t.args[1])
    return 0, {t: 1}


def _mklin(c, d):
    d = {k: v for k, v in d.items() if v != 0}
    if not d:
        return C(c)
    if c == 0 and len(d) == 1:
        (k, v), = d.items()
        if v == 1:
            return k
    return mk("lin", c, tuple(sorted(d.items(), key=lambda kv: kv[0].id)))


def add(a, b):
    ca, da = _lin(a)
    cb, db = _lin(b)
    for k, v in db.items():
        da[k] = da.get(k, 0) + v
    return _mklin(ca + cb, da)


def neg(a):
    c, d = _lin(a)
    return _mklin(-c, {k: -v for k, v in d.items()})


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    if is_int(b):
        a, b = b, a
    if is_int(a):
        c, d = _lin(b)
        return _mklin(c * a.args[0], {k: v * a.args[0] for k, v in d.items()})
    x, y = sorted((a, b))
    return mk("mul", x, y)


def div(a, b):
    if is_int(a) and is_int(b) and b.args[0] != 0:
        q = abs(a.args[0]) // abs(b.args[0])
        return C(q if (a.args[0] >= 0) == (b.args[0] > 0) else -q)
    if is_int(b) and b.args[0] == 1:
        return a
    if is_int(b) and a.op == "div" and is_int(a.args[1]):
        l, _ = bound(a.args[0])
        if l is not None and l >= 0:
            return div(a.args[0], C(a.args[1].args[0] * b.args[0]))
    if is_int(b) and b.args[0] > 0:
        l, h = bound(a)
        if l is not None and h is not None and l >= 0 and h < b.args[0]:
            return C(0)
        # (k*b*x + r) / b with 0 <= r < b
        if a.op == "lin":
            k = b.args[0]
            hiq, lor = {}, {}
            for x, cf in a.args[1]:
                (hiq if cf % k == 0 else lor)[x] = cf
            if hiq:
                r = _mklin(a.args[0] % k, lor)
                rl, rh = bound(r)
                if rl is not None and rl >= 0 and rh is not None and rh < k:
                    return _mklin(a.args[0] // k, {x: cf // k for x, cf in hiq.items()})
    return mk("div", a, b)


def mod(a, b):
    if is_int(a) and is_int(b) and b.args[0] != 0:
        m = abs(a.args[0]) % abs(b.args[0])
        return C(m if a.args[0] >= 0 else -m)
    if is_int(b) and b.args[0] > 0:
        k = b.args[0]
        l, h = bound(a)
        if l is not None and h is not None and l >= 0 and h < k:
            return a
        if a.op == "mod" and is_int(a.args[1]) and a.args[1].args[0] % k == 0:
            return mod(a.args[0], b)
        if a.op == "lin" and l is not None and l >= 0:
            d = {x: cf % k for x, cf in a.args[1]}
            if d != dict(a.args[1]) or a.args[0] % k != a.args[0]:
                return mod(_mklin(a.args[0] % k, d), b)
    return mk("mod", a, b)


def _minmax(op, a, b):
    if is_int(a) and is_int(b):
        return C((max if op == "max" else min)(a.args[0], b.args[0]))
    if a is b:
        return a
    d = sub(a, b)
    if is_int(d):
        return a if (d.args[0] > 0) == (op == "max") else b
    if is_c(a) and not is_int(a) or is_c(b) and not is_int(b):
        x, y = sorted((a, b))
        return mk(op, x, y)
    # factor a common constant out: min(a+c, b+c) = min(a, b) + c
    ca, da = _lin(a)
    cb, db = _lin(b)
    if not da:
        c = cb
    elif not db:
        c = ca
    else:
        c = ca if _mklin(0, da).id < _mklin(0, db).id else cb
    if c:
        return add(_minmax(op, sub(a, C(c)), sub(b, C(c))), C(c))
    x, y = sorted((a, b))
    return mk(op, x, y)


def tmax(a, b):
    return _minmax("max", a, b)


def tmin(a, b):
    return _minmax("min", a, b)


# ---- comparisons: canonical atoms are eq(a,b) and lt(a,b) ---------------------------------------

def tnot(t):
    if t is TRUE:
        return FALSE
    if t is FALSE:
        return TRUE
    if t.op == "not":
        return t.args[0]
    if t.op == "and":
        return tor(tnot(t.args[0]), tnot(t.args[1]))
    if t.op == "or":
        return tand(tnot(t.args[0]), tnot(t.args[1]))
    return mk("not", t)


def tand(a, b):
    if a is FALSE or b is FALSE:
        return FALSE
    if a is TRUE:
        return b
    if b is TRUE or a is b:
        return a
    x, y = sorted((a, b))
    return mk("and", x, y)


def tor(a, b):
    if a is TRUE or b is TRUE:
        return TRUE
    if a is FALSE:
        return b
    if b is FALSE or a is b:
        return a
    x, y = sorted((a, b))
    return mk("or", x, y)


def teq(a, b):
    if a is b:
        return TRUE
    if is_c(a) and is_c(b):
        return C(a.args[0] == b.args[0]) if type(a.args[0]) is type(b.args[0]) else FALSE
    if a.op == "c" and type(a.args[0]) is bool:
        return b if a.args[0] else tnot(b)
    if b.op == "c" and type(b.args[0]) is bool:
        return a if b.args[0] else tnot(a)
    if a.op == "S" and b.op == "S" and a.args[1] is not None and b.args[1] is not None:
        if a.args[1] != b.args[1]:
            return FALSE
        if a.args[2] is None and b.args[2] is None and [k for k, _ in a.args[3]] == [k for k, _ in b.args[3]]:
            r = TRUE
            for (_, x), (_, y) in zip(a.args[3], b.args[3]):
                r = tand(r, teq(x, y))
            return r
    if a.op == "S" and b.op == "S" and a.args[0] == "tuple" and b.args[0] == "tuple" and a.args[2] is None and b.args[2] is None:
        r = TRUE
        for (_, x), (_, y) in zip(a.args[3], b.args[3]):
            r = tand(r, teq(x, y))
        return r
    for x, y in ((a, b), (b, a)):
        # a written-out tuple against an unknown one: component by component
        if x.op == "S" and x.args[0] == "tuple" and x.args[2] is None and x.args[3] and y.op not in ("S", "c"):
            r = TRUE
            for k, v in x.args[3]:
                r = tand(r, teq(get_field(y, k), v))
            return r
    # fieldless variant against unknown enum value: compare discriminants
    for x, y in ((a, b), (b, a)):
        if x.op == "S" and x.args[1] is not None and not x.args[3] and x.args[2] is None and y.op != "S":
            return mk("isv", y, x.args[1])
    if a.op in ("lin",) or b.op in ("lin",):
        d = sub(a, b)
        if is_int(d):
            return C(d.args[0] == 0)
        # canonical: move constant to the right
        c, dd = _lin(d)
        lead = min(dd, key=lambda t: t.id)
        if dd[lead] < 0:
            c = -c
            dd = {k: -v for k, v in dd.items()}
        return mk("eq", *_order(_mklin(0, dd), C(-c)))
    return mk("eq", *_order(a, b))


def _order(a, b):
    if is_c(a):
        return (b, a)
    if is_c(b):
        return (a, b)
    return tuple(sorted((a, b)))


def tlt(a, b):
    if a is b:
        return FALSE
    if is_c(a) and is_c(b):
        return C(a.args[0] < b.args[0])
    d = sub(a, b)
    if is_int(d):
        return C(d.args[0] < 0)
    if is_c(a) and not is_int(a) or is_c(b) and not is_int(b):
        return mk("lt", a, b)
    # canonical: split the difference into positive and negative part
    c, dd = _lin(d)
    pos = {k: v for k, v in dd.items() if v > 0}
    ng = {k: -v for k, v in dd.items() if v < 0}
    # pos + c < neg
    if not ng:
        # pos < -c
        return mk("lt", _mklin(0, pos), C(-c))
    if not pos:
        # c < neg  <=> not (neg < c + 1)
        return tnot(mk("lt", _mklin(0, ng), C(c + 1)))
    return mk("lt", _mklin(c, pos), _mklin(0, ng))


def flt(a, b):
    """< on floats: no arithmetic normalisation, and not(a<b) is not b<=a for NaN, so le is separate."""
    if is_c(a) and is_c(b):
        return C(a.args[0] < b.args[0])
    return mk("flt", a, b)


def fle(a, b):
    if is_c(a) and is_c(b):
        return C(a.args[0] <= b.args[0])
    return mk("fle", a, b)


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        stack = list(x.args)
        while stack:
            a = stack.pop()
            if isinstance(a, T):
                st.append(a)
            elif isinstance(a, tuple):
                stack.extend(a)


def mentions(t, pred):
    return any(pred(x) for x in subterms(t))


def subst(t, m, memo=None):
    """Replace sub-terms by m (dict T->T), re-normalising the common operators."""
    if memo is None:
        memo = {}
    if t in m:
        return m[t]
    if t in memo:
        return memo[t]

    def go(a):
        if isinstance(a, T):
            return subst(a, m, memo)
        if isinstance(a, tuple):
            return tuple(go(x) for x in a)
        return a
    args = tuple(go(a) for a in t.args)
    if args == t.args:
        r = t
    else:
        r = rebuild(t.op, args)
    memo[t] = r
    return r


def rebuild(op, args):
    if op == "lin":
        r = C(args[0])
        for x, k in args[1]:
            r = add(r, mul(C(k), x))
        return r
    f = {"mul": mul, "div": div, "mod": mod, "max": tmax, "min": tmin, "not": tnot, "and": tand, "or": tor,
         "eq": teq, "lt": tlt, "sel": select, "store": store, ".": get_field}.get(op)
    if f:
        return f(*args)
    return mk(op, *args)


def show(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ",".join(show(x, d + 1) for x in t) + ")"
        return str(t)
    if d > 14:
        return "…"
    o, a = t.op, t.args
    if o == "c":
        return repr(a[0])
    if o == "init":
        return str(a[0])
    if o == ".":
        return f"{show(a[0], d + 1)}.{a[1]}"
    if o == "sel":
        return f"{show(a[0], d + 1)}[{show(a[1], d + 1)}]"
    if o == "lin":
        s = "+".join((f"{k}*" if k != 1 else "") + show(x, d + 1) for x, k in a[1])
        return f"({s}{a[0]:+d})" if a[0] else f"({s})"
    if o == "S":
        nm = (a[0] or "").split("::")[-1] if isinstance(a[0], str) else str(a[0])
        if a[1]:
            nm = f"{nm}::{a[1]}"
        b = f"..{show(a[2], d + 1)}; " if a[2] is not None else ""
        return f"{nm}{{{b}" + ", ".join(f"{k}:{show(v, d + 1)}" for k, v in a[3]) + "}"
    if o == "&":
        return f"&{a[0]}{''.join('.' + str(x[1]) if x[0] == 'F' else '[' + show(x[1]) + ']' if x[0] == 'I' else str(x) for x in a[1])}"
    if o == "phi":
        return "phi" + str(t.id)
    return f"{o}(" + ", ".join(show(x, d + 1) for x in a) + ")"
