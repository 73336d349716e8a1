"""Loops against a specification of one turn.

The interpreter gives, for a loop, every path from the loop head back to it (conditions and next values of everything the loop carries)
and every path out.  Here these paths are read as a decision table and compared, at representative settings of everything the conditions
and values speak of, with a specification of the turn: the loop-carried places are matched with the parts of the specified state they
stand for (a relation that the entry establishes and every turn keeps), so the names, the number and the form of the variables are free."""
import itertools
import math
import operator
from terms import *
from loops import arrivals


class Unknown(Exception):
    pass


def value_at(I, st, ph):
    """what a path brings to the place a loop variable stands for"""
    v = st.mem.get(ph.args[1])
    if v is None:
        if ph.args[1][0] not in ("P", "H"):
            return None
        v = I.default(ph.args[1])
    for x in ph.args[2]:
        v = get_field(v, x)
    return v


def template(bs):
    """the pieces of a formatting template: texts and (argument, precision)"""
    out, i, n = [], 0, 0
    while i < len(bs):
        b = bs[i]
        i += 1
        if b == 0:
            break
        if b < 0x80:
            out.append(bytes(bs[i:i + b]).decode())
            i += b
        elif b == 0x80:
            k = bs[i] | bs[i + 1] << 8
            out.append(bytes(bs[i + 2:i + 2 + k]).decode())
            i += 2 + k
        elif b >= 0xC0:
            prec = None
            if b & 1:
                fl = bs[i] | bs[i + 1] << 8 | bs[i + 2] << 16 | bs[i + 3] << 24
                i += 4
                prec = 0 if fl & 0x10000000 else None
                if fl & 0x0FE00000 & ~(0x10000000 | 0x60000000) or fl & 0x1FFFFF != 32:
                    raise Unknown("formatting flags")
            if b & 2:
                raise Unknown("a width")
            if b & 4:
                prec = bs[i] | bs[i + 1] << 8
                i += 2
            if b & 8:
                n = bs[i] | bs[i + 1] << 8
                i += 2
            if b & 0x30:
                raise Unknown("an indirect width or precision")
            out.append((n, prec))
            n += 1
        else:
            raise Unknown("a formatting template")
    return out


def display(v, prec=None):
    if isinstance(v, str):
        return v
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, float):
        if math.isnan(v):
            return "NaN"
        if math.isinf(v):
            return "inf" if v > 0 else "-inf"
        return f"{v:.{prec}f}" if prec is not None else repr(v)
    raise Unknown("a value to print")


def ratio_of(a, b):
    if b == 0:
        return math.nan if a == 0 or math.isnan(a) else math.copysign(math.inf, a)
    return a / b


TWO = {"mul": operator.mul, "eq": operator.eq, "lt": operator.lt, "max": max, "min": min, "flt": operator.lt, "fle": operator.le, "feq": operator.eq,
       "fadd": operator.add, "fsub": operator.sub, "fmul": operator.mul, "fdiv": ratio_of, "f.powf": operator.pow, "f.powi": operator.pow, "ipow": operator.pow, "f.hypot": math.hypot,
       "band": operator.and_, "bor": operator.or_, "f.max": max, "f.min": min}
ONE = {"not": operator.not_, "i2f": float, "f.sqrt": lambda v: math.sqrt(v) if v >= 0 else math.nan, "abs": abs, "f.abs": abs, "fneg": operator.neg}


CALLS = {"hypot": math.hypot, "powi": pow, "powf": pow, "pow": pow, "sqrt": ONE["f.sqrt"], "abs": abs, "abs_diff": lambda a, b: abs(a - b), "trim_end": lambda s: s.rstrip(),
         "floor": lambda v: float(math.floor(v)), "is_empty": lambda s: len(s) == 0, "concat": lambda l: "".join(l), "join": lambda l, s: s.join(l),
         "&truncate": lambda s, n: s.encode()[:n].decode(), "&clear": lambda s: s[:0], "&insert_str": lambda s, i, t: (s.encode()[:i] + t.encode() + s.encode()[i:]).decode()}


class Variant(dict):
    """an enum value with contents: its name under "", field k of variant V under V.k"""

    def __init__(self, name, *fields):
        super().__init__({"": name, **{f"{name}.{i}": x for i, x in enumerate(fields)}})


class Setting:
    """values for the atoms of the terms; calls: {short name: f(*argument values)}"""

    def __init__(self, atoms, calls=None):
        self.memo = dict(atoms)
        self.calls = {**CALLS, **(calls or {})}

    def __call__(self, t):
        m = self.memo
        if t in m:
            v = m[t]
            if isinstance(v, Unknown):
                raise v
            return v
        try:
            v = self.value(t)
        except Unknown as e:
            m[t] = e
            raise
        except (IndexError, KeyError, TypeError, ValueError, ZeroDivisionError, OverflowError, AttributeError) as e:
            m[t] = Unknown(f"{show(t)[:80]}: {e}")
            raise m[t]
        m[t] = v
        return v

    def value(self, t):
        o, a = t.op, t.args
        if o == "c":
            return a[0]
        if o in ("ref", "*", "snap"):
            return self(a[0])
        if o == ".":
            v = self(a[0])
            return v[int(a[1])] if isinstance(v, (tuple, list)) else v[a[1]]
        if o == "sel":
            l, i = self(a[0]), self(a[1])
            if i < 0:
                raise Unknown("a negative index")
            return l[i]
        if o == "lin":
            return a[0] + sum(k * self(x) for x, k in a[1])
        if o == "S":
            if a[2] is not None:
                return {**self(a[2]), **{k: self(v) for k, v in a[3]}}
            if a[1] is not None and not a[3]:
                return a[1]
            ks = [k for k, _ in a[3]]
            if a[1] is None and ks and all(k.isdigit() for k in ks):
                return tuple(self(dict(a[3])[str(i)]) for i in range(len(ks)))
            if a[1] is not None:
                return (a[1],) + tuple(self(v) for _, v in a[3])
            return {k: self(v) for k, v in a[3]}
        if o == "isv":
            v = self(a[0])
            return (v[0] if isinstance(v, tuple) else v[""] if isinstance(v, Variant) else v) == a[1]
        if o == "cast":
            v = self(a[1])
            if isinstance(v, float):
                raise Unknown("a cast")
            n = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64}.get(a[0])
            return v % (1 << n) if n else v
        if o in ONE:
            return ONE[o](self(a[0]))
        if o == "and":
            return self(a[0]) and self(a[1])
        if o == "or":
            return self(a[0]) or self(a[1])
        if o in ("div", "mod"):
            x, y = self(a[0]), self(a[1])
            if y <= 0 or x < 0:
                raise Unknown("a division")
            return x // y if o == "div" else x % y
        if o == "len":
            v = self(a[0])
            return len(v.encode()) if isinstance(v, str) else len(v)
        if o == "contains":
            return self(a[1]) in self(a[0])
        if o == "store":
            l, i = list(self(a[0])), self(a[1])
            l[i] = self(a[2])
            return l
        if o == "veclit":
            return [self(x) for x in a]
        if o == "from_elem":
            return [self(a[0])] * self(a[1])
        if o == "append":
            return list(self(a[0])) + list(self(a[1]))
        if o == "push":
            return list(self(a[0])) + [self(a[1])]
        if o == "sapp":
            return self(a[0]) + display(self(a[1]))
        if o == "spopped":
            return self(a[0])[:-1]
        if o == "gb":
            return self(a[1])[a[0]]
        if o == "format":
            return self.format(a[0])
        if o == "ite":
            return self(a[1]) if self(a[0]) else self(a[2])
        if o == "call":
            f = self.calls.get(a[0].split("::")[-1])
            if f:
                return f(*[self(x) for x in a[1]])
            if a[0].split("::")[-1] in ("to_string", "to_owned", "clone", "as_str", "deref"):
                return self(a[1][0])
        if o == "eff":
            f = self.calls.get(f"&{a[0].split('::')[-1]}/{a[1]}") or self.calls.get("&" + a[0].split("::")[-1])
            if f:
                return f(*[self(x) for x in a[2]])
        if o in TWO and len(a) == 2:
            return TWO[o](self(a[0]), self(a[1]))
        raise Unknown(show(t)[:120])

    def format(self, t):
        if t.op == "ref":
            t = t.args[0]
        if t.op != "call":
            raise Unknown(show(t)[:80])
        nm = t.args[0].split("::")[-1]
        if nm == "from_str":
            return self(t.args[1][0])
        if nm != "new" or len(t.args[1]) != 2:
            raise Unknown(show(t)[:80])
        bs = self(t.args[1][0])
        args = t.args[1][1]
        while args.op == "ref":
            args = args.args[0]
        if args.op != "veclit":
            raise Unknown(show(args)[:80])
        out = ""
        for p in template(bs):
            if isinstance(p, str):
                out += p
                continue
            x = args.args[p[0]]
            if not (x.op == "call" and x.args[0].endswith("new_display")):
                raise Unknown(show(x)[:80])
            out += display(self(x.args[1][0]), p[1])
        return out


def same(a, b):
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (math.isnan(a) and math.isnan(b)) or math.isclose(a, b, rel_tol=1e-9, abs_tol=1e-12)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, bool) != isinstance(b, bool) or isinstance(a, float) != isinstance(b, float):
        return False
    return a == b


def possible(ev, st):
    """False when a condition of the path does not hold in the setting"""
    for f, v in st.facts.items():
        try:
            if bool(ev(f)) is not v:
                return False
        except Unknown:
            pass
    return True


class Turns:
    """spec: atoms(w) -> {term: value} of what stays the same; start(w) -> state; more(s, w); turn(s, w) -> state; calls;
    parts: {name: f(s, w)}, the parts of the state that a place may stand for; result(s, w): what the function leaves behind"""

    def __init__(self, I, head, spec):
        self.I, self.head, self.spec = I, head, spec
        self.phis = [p for p in I.phi_in if p.args[0] == head]
        own = set(self.phis)
        back = lambda s: any(mentions(f, own) for f in s.facts) or any(value_at(I, s, p) is not None and mentions(value_at(I, s, p), own) for p in self.phis)
        self.back, self.entry = [], []
        for s in arrivals(I, head):
            (self.back if back(s) else self.entry).append(s)

    def roles(self, worlds):
        """for each place the parts of the state it agrees with on entry"""
        out = []
        for p in self.phis:
            ok = []
            for nm, f in self.spec.parts.items():
                good = bool(self.entry)
                for w in worlds:
                    ev = Setting(self.spec.atoms(w), self.spec.calls)
                    s0 = self.spec.start(w)
                    for s in self.entry:
                        if not possible(ev, s):
                            continue
                        t = value_at(self.I, s, p)
                        try:
                            good = good and t is not None and same(ev(t), f(s0, w))
                        except Unknown:
                            good = False
                if good:
                    ok.append(nm)
            out.append(ok)
        return out

    def setting(self, roles, s, w):
        at_ = {p: self.spec.parts[r](s, w) for p, r in zip(self.phis, roles)}
        return Setting({**self.spec.atoms(w), **at_}, self.spec.calls)

    def bad(self, roles, samples):
        """the first sample at which a turn does not do what it should, or None"""
        n = 0
        for s, w in samples:
            ev = self.setting(roles, s, w)
            ends = [b for b in self.back if possible(ev, b)]
            if not self.spec.more(s, w):
                if ends:
                    return f"another turn is taken at the end (state {brief(s)})"
                continue
            if not ends:
                return f"no turn is taken at {brief(s)} with {self.spec.tell(w)}"
            s2 = self.spec.turn(s, w)
            free = self.spec.free(s2) if hasattr(self.spec, "free") else ()
            for b in ends:
                for p, r in zip(self.phis, roles):
                    if r in free:
                        continue
                    want = self.spec.parts[r](s2, w)
                    v = value_at(self.I, b, p)
                    try:
                        got = ev(v) if v is not None else None
                    except Unknown as e:
                        return f"{r} becomes {show(v)[:160]} ({e})"
                    if not same(got, want):
                        return f"{r} becomes {differ(got, want)}, at {brief(s)} with {self.spec.tell(w)}"
            n += 1
        return None

    def match(self, worlds, samples):
        """(the roles of the places, None) or (None, what went wrong)"""
        cand = self.roles(worlds)
        for p, c in zip(self.phis, cand):
            if not c:
                return None, f"what the loop carries in {p.args[2] or p.args[1]} starts as {[show(t)[:80] for t in self.I.phi_in[p]][:3]}"
        best, msg = -1, None
        live = []
        for p, c in zip(self.phis, cand):
            fn = [nm for nm in c]
            live.append(fn)
        total = 1
        for c in live:
            total *= len(c)
        if total > 4000:
            return None, "too many ways to read the loop's variables"
        for roles in itertools.product(*live):
            b = self.bad(roles, samples)
            if b is None:
                return roles, None
            k = len(set(roles))
            if k > best:
                best, msg = k, b
        return None, msg

    def leaves(self, exits, roles, ends, got):
        """what the function leaves behind at the end of the loop"""
        for s, w in ends:
            ev = self.setting(roles, s, w)
            outs = [e for e in exits if possible(ev, e.st)]
            if not outs:
                return f"nothing is left behind with {self.spec.tell(w)}"
            for e in outs:
                want = self.spec.result(s, w)
                for t, x in zip(got(e), want):
                    try:
                        v = ev(t)
                    except Unknown as u:
                        return f"the result is {show(t)[:160]} ({u})"
                    if not same(v, x):
                        return f"the result is {differ(v, x)}, with {self.spec.tell(w)}"
        return None

    def early(self, exits, roles, samples):
        """an exit that can be taken in the middle"""
        for s, w in samples:
            if self.spec.more(s, w):
                ev = self.setting(roles, s, w)
                if [e for e in exits if possible(ev, e.st)]:
                    return f"the loop is left at {brief(s)} with {self.spec.tell(w)}"
        return None


def mentions(t, own):
    seen = set()

    def walk(x):
        if isinstance(x, T):
            if x in own:
                return True
            if x in seen:
                return False
            seen.add(x)
            return any(walk(y) for y in x.args)
        if isinstance(x, tuple):
            return any(walk(y) for y in x)
        return False
    return walk(t)


def differ(a, b):
    """where two values differ"""
    if isinstance(a, dict) and isinstance(b, dict) and a.keys() == b.keys():
        for k in a:
            if not same(a[k], b[k]):
                return f"{k}: {differ(a[k], b[k])}"
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if not same(x, y):
                return f"[{i}] {differ(x, y)}"
    return f"{str(a)[:160]}, not {str(b)[:160]}"


def brief(s):
    return str({k: v for k, v in s.items() if k not in ("events", "all")})[:160]
