"""Malformed files: no reader of replay files can panic."""
from props.clone import *

READERS = ("AvfVideo", "EvfVideo", "MvfVideo", "RmvVideo")
WIDTH = {"u8": (0, 255), "u16": (0, 65535), "u32": (0, 2 ** 32 - 1), "i8": (-128, 127), "i16": (-2 ** 15, 2 ** 15 - 1), "i32": (-2 ** 31, 2 ** 31 - 1)}
BITS = {"u8": 8, "i8": 8, "u16": 16, "i16": 16, "u32": 32, "i32": 32, "u64": 64, "i64": 64, "usize": 64, "isize": 64, "u128": 128, "i128": 128}
BOT = "bottom"


def hull(a, b):
    if a == BOT:
        return b
    if b == BOT:
        return a
    return (None if a[0] is None or b[0] is None else min(a[0], b[0]), None if a[1] is None or b[1] is None else max(a[1], b[1]))


def meet(a, b):
    if BOT in (a, b):
        return BOT
    lo = b[0] if a[0] is None else a[0] if b[0] is None else max(a[0], b[0])
    hi = b[1] if a[1] is None else a[1] if b[1] is None else min(a[1], b[1])
    return BOT if lo is not None and hi is not None and lo > hi else (lo, hi)


class Spans:
    """between which numbers a term lies; loop variables by a fixpoint over the values brought to them"""

    def __init__(self, I):
        self.I, self.H, self.done = I, {}, set()

    def of(self, st, t):
        todo = {p for p in self.reach(t) if p not in self.done}
        if todo:
            self.solve(todo)
        return self.span(st, t)

    def reach(self, t):
        seen, work = set(), [t]
        while work:
            for x in subterms(work.pop()):
                if x.op == "phi" and x not in seen:
                    seen.add(x)
                    work += list(self.I.phi_in.get(x, {}))
        return seen

    def solve(self, ps):
        for p in ps:
            self.H[p] = BOT
        for rnd in range(40):
            again = False
            for p in ps:
                h = self.H[p]
                for t, sts in self.I.phi_in.get(p, {}).items():
                    for s in sts:
                        h = hull(h, self.span(s, t))
                if not self.I.phi_in.get(p):
                    h = (None, None)
                if h != self.H[p]:
                    again = True
                    if rnd > 12 and self.H[p] != BOT:
                        a = self.H[p]
                        h = (None if h[0] != a[0] else a[0], None if h[1] != a[1] else a[1])
                    self.H[p] = h
            if not again:
                break
        else:
            for p in ps:
                self.H[p] = (None, None)
        self.done |= ps
        for p in ps:
            if self.H[p] != BOT and self.H[p][1] is None and self.H[p][0] is not None:
                hi = self.summed(p)
                if hi is not None:
                    self.H[p] = (self.H[p][0], hi)

    def summed(self, p):
        """what a sum comes to at most: something bounded is added on each of a constant number of turns"""
        ax = [axis(self.I, c) for c in self.I.phi_in if c.args[0] == p.args[0] and c is not p]
        ax = [a for a in ax if a is not None]
        if not ax:
            return None
        top, most = None, 0
        for t, sts in self.I.phi_in.get(p, {}).items():
            own = the_phi(t) is p or t.op == "lin" and p in lin_parts(t)[1]
            for s in sts:
                v = self.span(s, sub(t, p) if own else t)
                if v == BOT:
                    continue
                if v[1] is None:
                    return None
                if own:
                    most = max(most, v[1])
                else:
                    top = v[1] if top is None else max(top, v[1])
        return None if top is None else top + most * min(b - a for a, b in ax)

    def span(self, st, t, depth=0):
        I = self.I
        if depth > 60:
            return (None, None)
        r = I.interval(st, t)
        o = t.op
        sp = lambda x: self.span(st, x, depth + 1)
        if o == "phi":
            r = meet(r, self.H.get(t, (None, None)))
            if r != BOT and r[1] is None:
                ns = [len_of(I, u.args[0]) for u in uppers(st, t) if u.op == "len"]
                ns += [n for u in uppers(st, t) if u.op == "min" for v in [sp(u)] if v != BOT for n in [v[1]]]
                ns = [n for n in ns if n is not None]
                r = (r[0], min(ns) - 1) if ns else r
        elif o == "lin":
            lo = hi = t.args[0]
            for x, k in t.args[1]:
                v = sp(x)
                if v == BOT:
                    return BOT
                a, b = v if k > 0 else v[::-1]
                lo = None if lo is None or a is None else lo + k * a
                hi = None if hi is None or b is None else hi + k * b
            r = meet(r, (lo, hi))
        elif o in ("bor", "Shl", "band", "max", "min"):
            a, b = (sp(x) for x in t.args[:2])
            if BOT in (a, b):
                return BOT
            if o == "band":
                hs = [x[1] for x in (a, b) if x[0] is not None and x[0] >= 0 and x[1] is not None]
                r = meet(r, (0 if hs else None, min(hs) if hs else None))
            elif o == "max":
                los = [x for x in (a[0], b[0]) if x is not None]
                r = meet(r, (max(los) if los else None, max(a[1], b[1]) if None not in (a[1], b[1]) else None))
            elif o == "min":
                his = [x for x in (a[1], b[1]) if x is not None]
                r = meet(r, (min(a[0], b[0]) if None not in (a[0], b[0]) else None, min(his) if his else None))
            elif None not in (*a, *b) and a[0] >= 0 and b[0] >= 0:
                if o == "bor":
                    r = meet(r, (max(a[0], b[0]), 2 ** max(a[1], b[1]).bit_length() - 1))
                elif b[1] < 64:
                    r = meet(r, (a[0] << b[0], a[1] << b[1]))
        elif o in ("mod", "div") and is_int(t.args[1]) and t.args[1].args[0] > 0:
            a, m = sp(t.args[0]), t.args[1].args[0]
            if a == BOT:
                return BOT
            if o == "mod":
                r = meet(r, a if None not in a and 0 <= a[0] and a[1] < m else (0, m - 1))
            elif a[0] is not None and a[0] >= 0:
                r = meet(r, (a[0] // m, None if a[1] is None else a[1] // m))
        elif o == "cast" and t.args[0] in WIDTH or o == "cast" and t.args[0] == "usize":
            a = sp(t.args[1])
            if a == BOT:
                return BOT
            w = WIDTH.get(t.args[0], (0, None))
            ok_ = a[0] is not None and a[0] >= w[0] and (w[1] is None or a[1] is not None and a[1] <= w[1])
            r = meet(r, a if ok_ else w)
        elif o == "sel" and r[1] is None:
            e = self.element(st, t.args[0], depth + 1, set())
            if e == BOT:
                return BOT
            r = meet(r, e)
        elif o == "wsub":
            a, b = (sp(x) for x in t.args[:2])
            if BOT in (a, b):
                return BOT
        return r

    def element(self, st, B, depth, seen):
        if B in seen:
            return BOT
        seen = seen | {B}
        if B.op == "veclit":
            r = BOT
            for x in B.args:
                r = hull(r, self.span(st, x, depth))
            return r
        if B.op == "from_elem":
            return self.span(st, B.args[0], depth)
        if B.op in ("store", "push"):
            return hull(self.element(st, B.args[0], depth, seen), self.span(st, B.args[-1], depth))
        if B.op == "phi" and self.I.phi_in.get(B):
            r = BOT
            for t, sts in self.I.phi_in[B].items():
                for s in sts:
                    r = hull(r, self.element(s, t, depth, seen))
            return r
        return (None, None)


class Lengths:
    """is n the length of a list, or of every row of a board"""

    def __init__(self, I, same_shape=()):
        self.I, self.same_shape = I, same_shape

    def is_len(self, b, n, rows=False, seen=frozenset(), depth=0):
        if depth > 60 or b is None or n is None:
            return False
        if (b, n, rows) in seen:
            return True
        b = self.under(b)
        if not rows and n is mk("len", b):
            return True
        nxt = lambda b2, n2, r2=rows: self.is_len(b2, n2, r2, seen | {(b, n, rows)}, depth + 1)
        if b.op == "store":
            return nxt(b.args[0], n) and (not rows or nxt(b.args[2], n, False))
        if b.op == "from_elem":
            return nxt(b.args[0], n, False) if rows else b.args[1] is n
        if b.op == "veclit" and not rows:
            return C(len(b.args)) is n
        if b.op == "sel" and not rows:
            return nxt(b.args[0], n, True)
        if b.op == "phi" and self.I.phi_in.get(b):
            for s in arrivals(self.I, b.args[0]):
                n2 = at(s, n) if n.op == "phi" and n.args[0] == b.args[0] else n
                if not nxt(at(s, b), n2):
                    return False
            return True
        if n.op == "phi" and self.I.phi_in.get(n) and not [x for x in subterms(b) if x.op == "phi" and x.args[0] == n.args[0]]:
            return all(nxt(b, at(s, n)) for s in arrivals(self.I, n.args[0]))
        return False

    def candidates(self, b):
        """terms that may be the length: what the list was made with, and the loop variables that hold it"""
        seen, work, out, heads = set(), [b], [], set()
        while work:
            t = self.under(work.pop())
            if t in seen:
                continue
            seen.add(t)
            if t.op in ("store", "sel"):
                work.append(t.args[0])
            elif t.op == "from_elem":
                out.append(t.args[1])
                if t.args[0].op == "from_elem":
                    out.append(t.args[0].args[1])
            elif t.op == "phi":
                heads.add(t.args[0])
                work += list(self.I.phi_in.get(t, {}))
        out += [q for q in self.I.phi_in if q.args[0] in heads]
        return dict.fromkeys(out)

    def under(self, b):
        while b.op == "eff" and b.args[0] in self.same_shape:
            b = b.args[2][b.args[1]]
            b = b.args[0] if b.op == "ref" else b
        return b


def shortest(t):
    """the least number of characters a formatted text has, by its pieces and widths"""
    while t.op in ("ref", "*") or t.op == "call" and str(t.args[0]).split("::")[-1] in ("as_bytes", "chars", "to_string", "as_str", "clone", "to_owned", "deref", "from", "collect"):
        t = t.args[0] if t.op in ("ref", "*") else t.args[1][0]
    if t.op == "c" and isinstance(t.args[0], str):
        return len(t.args[0].encode())
    if t.op != "format":
        return 0
    for x in subterms(t):
        if x.op == "call" and str(x.args[0]).endswith("Arguments::new"):
            p = x.args[1][0]
            p = p.args[0] if p.op == "ref" else p
            if p.op != "veclit" or not all(is_int(y) for y in p.args):
                return 0
            return template_width([y.args[0] for y in p.args])
    return 0


def template_width(b):
    k, n = 0, 0
    while k < len(b) and b[k]:
        c, k = b[k], k + 1
        if c < 0x80:
            n, k = n + c, k + c
        elif c == 0x80:
            m = b[k] + 256 * b[k + 1]
            n, k = n + m, k + 2 + m
        else:
            k += 4 if c & 1 else 0
            if c & 2:
                n += 0 if c & 16 else b[k] + 256 * b[k + 1]
                k += 2
            k += (2 if c & 4 else 0) + (2 if c & 8 else 0)
    return n


class Sites:
    """every place that may panic on some path, and what must hold there"""

    def __init__(self, I, same_shape=()):
        self.I, self.spans, self.lens = I, Spans(I), Lengths(I, same_shape)
        I.on_assert = self.checked
        I.on_index = self.indexed

    def note(self, st, fn, line, *what):
        self.I.panics.append((fn, line, what, st))

    def checked(self, st, f, fr, b, t):
        m = t["m"]
        val = lambda o: self.I.operand(st, fr, f, o)
        if m[0] == "bounds":
            self.note(st, f.name, b["l"], "index", val(m[2]), val(m[1]), None)
        elif m[0] == "overflow":
            ty = f.ty(t["o"]["p"][0]).strip("()").split(",")[0]
            self.note(st, f.name, b["l"], "overflow", m[1], val(m[2]), val(m[3]), ty if ty != "bool" else self.shifted(f, b, m))
        elif m[0] == "overflowneg":
            self.note(st, f.name, b["l"], "other", "negation")
        elif m[0] in ("div0", "rem0"):
            self.note(st, f.name, b["l"], "cond", val(t["o"]), t["exp"])
        else:
            self.note(st, f.name, b["l"], "other", str(m))

    def shifted(self, f, b, m):
        """the type a shift works on"""
        for o in (m[2],):
            if o["k"] in ("copy", "move") and not o["p"][1]:
                return f.ty(o["p"][0])
        nx = f.blocks[b["t"]["t"]]["s"]
        return f.ty(nx[0]["p"][0]) if nx and nx[0]["k"] == "=" and not nx[0]["p"][1] else None

    def indexed(self, st, ci, ref, idx, n, kind):
        v = self.I.deep(st, ref)
        self.note(st, ci.f.name, ci.line, kind, idx, n if n is not None else mk("len", v), v)

    def impossible(self, st):
        """the path supposes that a text has fewer characters than it has"""
        for f, v in st.facts.items():
            while f.op == "not":
                f, v = f.args[0], not v
            if f.op == "isv" and (f.args[1] == "Some") is not v and f.args[0].op == "call" and str(f.args[0].args[0]).split("::")[-1] in ("nth", "get") and len(f.args[0].args[1]) == 2:
                txt, k = f.args[0].args[1]
                s = self.spans.of(st, k)
                if s != BOT and s[1] is not None and s[1] < shortest(txt):
                    return True
        return False

    def matches(self, st, c):
        """c counts the places of a fixed list found equal to a value that only goes up: no more than the places there are"""
        I = self.I
        fam, work, ups = {c}, [c], []
        while work:
            p = work.pop()
            for t, sts in I.phi_in.get(p, {}).items():
                q = the_phi(t)
                if q is None or q is not t and t is not add(q, C(1)):
                    if t is not C(0):
                        return None
                    continue
                if q is not t:
                    ups += [(q, s) for s in sts]
                if q not in fam:
                    fam.add(q)
                    work.append(q)
        heads = {p.args[0] for p in fam}
        own = lambda x: {t for t in I.phi_in.get(x, {}) if the_phi(t) is x}
        seen = None
        for q, s in [*ups, (c, st)]:
            here = set()
            for f, v in s.facts.items():
                if not (v and f.op == "eq"):
                    continue
                for x, i in (f.args, f.args[::-1]):
                    if x.op != "sel" or x.args[1].op != "phi" or i.op != "phi":
                        continue
                    S_, j = x.args
                    if j.args[0] != q.args[0] or i.args[0] == j.args[0] or i.args[0] not in heads or own(j) != {add(j, C(1))} or own(i) != {add(i, C(1))} or [y for y in subterms(S_) if y.op == "phi" and y.args[0] in heads]:
                        continue
                    here |= {(S_, j, i, n) for u in bounds_on(s, j)[0] for n in [u.args[0] if is_int(u) else len_of(I, u.args[0]) if u.op == "len" else None] if n is not None}
            seen = here if seen is None else seen & here
        return min((x[3] for x in seen), default=None) if seen else None

    def in_range(self, st, i, n, v):
        I = self.I
        if i.op == "phi" and is_int(n):
            m = self.matches(st, i)
            if m is not None and m <= n.args[0]:
                return True
        if v is not None and not is_int(n):
            s = self.spans.of(st, i)
            if s != BOT and s[1] is not None and s[1] < shortest(v):
                return True
        if I.ev(st, tlt(i, n)) is True:
            return True
        a, b = self.spans.of(st, i), self.spans.of(st, n)
        if a == BOT or a[1] is not None and b != BOT and b[0] is not None and a[1] < b[0]:
            return True
        if v is None:
            return False
        for u in dict.fromkeys([x for u in bounds_on(st, i)[0] for x in ((u, *u.args) if u.op == "min" else (u,))]):
            if self.lens.is_len(v, u):
                return True
        if is_int(i):
            for u in self.lens.candidates(v):
                if self.lens.is_len(v, u) and (I.ev(st, tlt(i, u)) is True or i is C(0) and I.ev(st, teq(u, C(0))) is False or self.at_least(st, sub(u, i), 1)):
                    return True
        # a constant length
        return a[1] is not None and any(self.lens.is_len(v, C(k)) for k in range(a[1] + 1, a[1] + 65))

    def safe(self, what, st):
        """(holds, what is at stake)"""
        I, kind = self.I, what[0]
        if isinstance(what, str):
            return self.impossible(st), what
        if kind in ("index", "slice", "remove"):
            i, n, v = what[1:]
            if kind == "slice":
                n = add(n, C(1))
            return self.in_range(st, i, n, v), f"index {show(i)[:120]} of a list of {show(n)[:120]}"
        if kind == "overflow":
            op, a, b, ty = what[1:]
            msg = f"{ty} {op} of {show(a)[:100]} and {show(b)[:100]}"
            if op in ("Shl", "Shr"):
                s = self.spans.of(st, b)
                return s == BOT or None not in s and s[0] >= 0 and s[1] < BITS.get(ty, 8), msg
            if ty in BITS and ty not in WIDTH:
                if op != "Sub":
                    return True, msg           # sizes and positions stay far below 2^63
                return I.ev(st, tlt(a, b)) is False or self.at_least(st, sub(a, b), 0), msg
            if op == "Add" and C(1) in (a, b) and ty in ("i32", "u32"):
                return True, msg               # a count
            if op == "Sub" and ty and ty[0] == "u" and I.ev(st, tlt(a, b)) is False:
                return True, msg
            r = {"Add": add, "Sub": sub, "Mul": mul}.get(op)
            s = self.spans.of(st, r(a, b)) if r else (None, None)
            w = WIDTH.get(ty)
            return s == BOT or w is not None and None not in s and w[0] <= s[0] and s[1] <= w[1], msg
        if kind == "cond":
            return I.ev(st, what[1]) is what[2], f"condition {show(what[1])[:150]}"
        return False, str(what)[:200]

    def at_least(self, st, t, k):
        s = self.spans.of(st, t)
        return s == BOT or s[0] is not None and s[0] >= k


def v21(ck):
    ck.rule = ("Every operation of the readers that can panic - indexing, narrow arithmetic and every subtraction, shifts, unwrapping, numbering a board without rows - is an obligation on each abstract path that reaches it, over an arbitrary byte string: bounds follow from the tests on the path, "
               "from intervals of loop variables (fixpoint) and from list lengths kept through loops; calls without a model are not accepted unless known never to panic.")
    p = prog()
    numbers = fn_named(p, "utils::cal_board_numbers").name
    for R in READERS:
        g = method("parse_video", R)
        I = Interp(p, opaque=[numbers])
        I.split = lambda n: True
        sites = Sites(I, (numbers,))

        def numbering(I, st, ci, a, sites=sites):
            b = I.deep(st, a[0])
            sites.note(st, ci.f.name, ci.line, "index", C(0), mk("len", b), b)
            return None
        I.handlers[numbers] = numbering
        ex = I.analyse(g.name, lambda st, I: I.assume(st, F("data", "allow_set_rtime"), True))
        ck.use(I, ex)
        w = wh(g)
        nm = R.lower()
        n = 0
        for fn, line, what, st in I.panics:
            ok_, msg = sites.safe(what, st)
            n += 1
            ck.ob(f"{nm}/{fn.split('::')[-1]}/{what if isinstance(what, str) else what[0]}", ok_, f"{R}: may panic: {msg}", f"{w.split(':')[0]}:{line}" if fn == g.name else f"{fn}:{line}")
        ck.floor(nm + " sites", n, 20)
        for c in sorted(I.unmodelled):
            ck.ob(nm + "/calls", c.split("::")[-1] in ("chars", "nth", "get", "as_bytes"), f"{R} calls {c}, which is not known never to panic", w)
