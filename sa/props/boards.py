"""Encoded boards: what goes in comes out."""
from props.video import *

LEGAL = [v for v in range(-3, 17) if v != 9]
I32 = 2 ** 31 - 1


def draw(rngs):
    def h(I, st, ci, a):
        r = I.snapshot(st, a[1]) if len(a) > 1 else UNIT
        lo, hi = (get_field(r, x) for x in ("start", "end"))
        t = mk("draw", ci.line, len(rngs), lo, hi)
        rngs[t] = (lo, hi)
        return [(st.copy(), t)]
    return {"rand::Rng::gen_range": h}


def absb(t, bounds):
    """a bound on the absolute value of every partial sum of t"""
    if is_int(t):
        return abs(t.args[0])
    if t in bounds:
        return bounds[t]
    if t.op == "lin":
        return abs(t.args[0]) + sum(abs(k) * absb(x, bounds) for x, k in t.args[1])
    if t.op == "sel" and t.args[0].op == "veclit" and all(is_int(x) for x in t.args[0].args):
        return max(abs(x.args[0]) for x in t.args[0].args)
    return 2 ** 40


def stored(t):
    """the rows kept in a board were never iterated over: their counters are still 0"""
    d = {}
    for y in subterms(t):
        if y.op == "." and y.args[1] == "counter" and y.args[0].op == "sel":
            d[y] = C(0)
    return subst(t, d) if d else t


class Rows:
    """how a row is encoded: the element every list of the row gets for one value, and the row's constant fields"""

    def __init__(self, ck):
        g = fn_named(prog(), "new", r"SafeBoardRow$")
        self.name = g.name
        self.rng = {}
        self.w = wh(g)
        I = Interp(prog(), handlers=draw(self.rng))
        I.split = lambda n: True
        ex = I.analyse(g.name)
        ck.use(I, ex)
        self.lists, self.consts = {}, {}
        V = mk("init", "a1")
        self.x = mk("value")
        ck.ob("encode/exits", bool(ex), "never returns", self.w)
        for e in ex:
            v = I.deep(e.st, e.val)
            if not ck.ob("encode/row", v.op == "S" and v.args[3], f"gives {show(v)[:200]}", self.w):
                continue
            for nm, t in v.args[3]:
                if t.op != "phi":
                    ok_ = ck.ob("encode/" + nm, not mentions(t, lambda y: y.op in ("phi", "draw", "init")), f"{nm} is {show(t)[:200]}", self.w)
                    ck.ob("encode/" + nm + "/one", self.consts.setdefault(nm, t) is t and ok_, "differs between paths", self.w)
                    continue
                self.lists.setdefault(nm, []).append((I, e.st, t))
        self.elem = {}
        for nm, vs in self.lists.items():
            for I, st, t in vs:
                hid = t.args[0]
                ins = I.phi_in[t]
                if not ck.ob(f"encode/{nm}/empty", {b for b in ins if not mentions(b, lambda y: y is t)} == {mk("veclit")} and len(ins) >= 2, f"starts as {[show(b)[:80] for b in ins]}", self.w):
                    continue
                elems = {(b.args[1] if b.op == "push" and b.args[0] is t else None) for b in ins if mentions(b, lambda y: y is t)}
                if not ck.ob(f"encode/{nm}/one", len(elems) == 1 and None not in elems, f"a round adds {[show(b)[:200] for b in ins]}", self.w):
                    continue
                el = elems.pop()
                src = {y for y in subterms(el) if y.op == "sel" and y.args[0] is V}
                idx = [p for p in I.phi_in if p.args[0] == hid and set(I.phi_in[p]) == {C(0), add(p, C(1))}]
                if not ck.ob(f"encode/{nm}/index", len(idx) == 1 and src <= {select(V, idx[0])}, f"encodes {[show(y) for y in src]}", self.w):
                    continue
                for s in arrivals(I, hid):
                    if at(s, idx[0]) is add(idx[0], C(1)):
                        ck.ob(f"encode/{nm}/step", at(s, t) is mk("push", t, el), f"a round makes it {show(at(s, t))[:200]}", self.w)
                        ck.ob("encode/all", I.ev(s, tlt(idx[0], mk("len", V))) is True, "works past the end of the values", self.w)
                ck.ob("encode/all", I.ev(st, tlt(idx[0], mk("len", V))) is False, "not every value is encoded", self.w)
                self.elem[nm] = subst(el, {select(V, idx[0]): self.x})
        self.bound = {r: max(abs(lo.args[0]), abs(hi.args[0] - 1)) for r, (lo, hi) in self.rng.items() if is_int(lo) and is_int(hi)}
        self.bound[self.x] = 20
        # what is drawn in the last round only: older rounds' symbols may be left over
        self.used = {y for t in self.elem.values() for y in subterms(t) if y.op == "draw"}
        ck.ob("encode/draws", all(r in self.bound for r in self.used), f"draws from {[show(r) for r in self.used]}", self.w)
        for nm, t in self.elem.items():
            b = absb(t, self.bound)
            ck.ob(f"encode/{nm}/fits", b <= I32, f"{show(t)} can leave the range of i32: up to {b}", self.w)
            for y in subterms(t):
                if y.op == "sel" and y.args[0].op == "veclit":
                    for v in LEGAL:
                        i = ceval(y.args[1], {self.x: v})
                        ck.ob(f"encode/{nm}/table/{v}", 0 <= i < len(y.args[0].args), f"value {v} is looked up at {i}", self.w)

    def compose(self, t, row, at_):
        """the term t over the fields of an encoded row, with the row's cell `at_` put there by the encoder"""
        memo = {}

        def go(u):
            if not isinstance(u, T):
                return tuple(go(y) for y in u) if isinstance(u, tuple) else u
            if u in memo:
                return memo[u]
            r = u
            if u.op == "sel" and u.args[0].op == "." and u.args[0].args[0] is row and u.args[0].args[1] in self.elem:
                r = self.elem[u.args[0].args[1]] if u.args[1] is at_ else mk("other cell", u)
            elif u.op == "." and u.args[0] is row and u.args[1] in self.consts:
                r = self.consts[u.args[1]]
            elif u.op in ("c", "init"):
                r = u
            else:
                r = rebuild(u.op, tuple(go(y) for y in u.args))
            memo[u] = r
            return r
        return go(t)

    def decodes(self, ck, k, cases, row, at_, w):
        """cases: (value term, state) of the ways to read cell at_ of the row; together they give back every value encoded"""
        got = []
        for t, st in cases:
            v = self.compose(t, row, at_)
            fs = [(self.compose(f, row, at_), b) for f, b in st.facts.items() if mentions(f, lambda y: y is row)]
            fs = [(f, b) for f, b in fs if mentions(f, lambda y: y is self.x or y.op == "draw")]
            got.append((v, fs))
            for y in [v] + [f for f, _ in fs]:
                ck.ob(k + "/mask", self.masked(y), f"{show(y)[:200]} still depends on what was drawn", w)
            for y in subterms(t):
                if y.op in ("srem", "mod", "sdiv", "emod"):
                    b = absb(y.args[0], {select(get_field(row, nm), at_): absb(e, self.bound) for nm, e in self.elem.items()})
                    ck.ob(k + "/fits", b <= I32, f"{show(y.args[0])} can leave the range of i32: up to {b}", w)
        for x in LEGAL:
            for pick in ("lo", -3, -2, -1, 0, 1, 2, 3, "hi"):
                env = {self.x: x}
                for r in self.used:
                    lo, hi = self.rng[r][0].args[0], self.rng[r][1].args[0] - 1
                    env[r] = lo if pick == "lo" else hi if pick == "hi" else max(lo, min(hi, pick))
                n = 0
                for v, fs in got:
                    try:
                        if any(bool(seval(f, env)) is not b for f, b in fs):
                            continue
                        n += 1
                        y = seval(v, env)
                    except NoValue as nv:
                        ck.fail(f"{k}/{x}", f"value {x}: cannot tell what is read back: {nv}", w)
                        break
                    ck.ob(f"{k}/{x}", y == x, f"value {x} comes back as {y}", w)
                ck.ob(f"{k}/{x}/some", n >= 1, f"value {x} is not read back on any path", w)

    def masked(self, t):
        if t.op == "draw":
            return False
        if t.op in ("srem", "emod") and is_int(t.args[1]) and t.args[1].args[0]:
            kk = abs(t.args[1].args[0])
            c, d = lin_parts(t.args[0])
            return all(k % kk == 0 if y.op == "draw" else self.masked(y) for y, k in d.items())
        return all(self.masked(y) for a in t.args for y in (a if isinstance(a, tuple) else (a,)) if isinstance(y, T)) if t.op != "lin" else all(self.masked(y) for y, k in t.args[1])


def seval(t, env):
    """concrete evaluation with truncating signed remainder and constant tables"""
    e = dict(env)
    for y in post(t):
        if y in e:
            continue
        if y.op in ("srem", "sdiv", "emod"):
            a, b = (ceval(z, e) for z in y.args)
            if not b:
                raise NoValue(show(y))
            q = abs(a) // abs(b) * (1 if (a >= 0) == (b > 0) else -1)
            e[y] = q if y.op == "sdiv" else a % abs(b) if y.op == "emod" else a - q * b
        elif y.op == "sel" and y.args[0].op == "veclit":
            i = ceval(y.args[1], e)
            if not 0 <= i < len(y.args[0].args):
                raise NoValue(f"index {i}")
            e[y] = ceval(y.args[0].args[i], e)
    return ceval(t, e)


def post(t):
    out, seen = [], set()

    def go(u):
        if u in seen:
            return
        seen.add(u)
        for a in u.args:
            for y in (a if isinstance(a, tuple) else (a,)):
                if isinstance(y, T):
                    go(y)
                elif isinstance(y, tuple) and y and isinstance(y[0], T):
                    go(y[0])
        out.append(u)
    go(t)
    return out


def s01(ck):
    ck.rule = ("The lists an encoded row is made of are value-numbered as functions of one value and the random draws (each list grows by one element per value, in order). Every way to read a cell is composed with them: "
               "the result must depend on the draws only through a remainder by a number their coefficients are multiples of, all partial sums must fit i32 by the bounds of the draws, and the composition is tabulated "
               "over all legal cell values and both signs of the masked sum. Loops that list rows and cells must cover all of them in order; dimensions are the lengths of the lists.")
    R = Rows(ck)
    ck.floor("encoded lists", len(R.elem), 1)
    row, brd = r"SafeBoardRow$", r"SafeBoard$"
    lens = [mk("len", get_field(SELF, nm)) for nm in R.elem]

    def go(nm, impl, opq=()):
        g = fn_named(prog(), nm, impl)
        I = Interp(prog(), opaque=list(opq))
        I.split = lambda n: True
        ex = I.analyse(g.name)
        ck.use(I, ex)
        ck.ob(f"{nm}/{impl.strip('$')}/exits", bool(ex), "never returns", wh(g))
        return I, ex, wh(g)
    # one cell of a row
    I, ex, w = go("index", row)
    R.decodes(ck, "row[i]", [(I.deep(e.st, e.val), e.st) for e in ex], SELF, A2, w)
    # a row as a list
    I, ex, w = go("into_vec", row)
    for e in ex:
        listing(ck, "into_vec", R, I, e, e.val, SELF, lens, w)
    # a row as an iterator
    I, ex, w = go("next", row)
    cnt = F("counter")
    somes = []
    for e in ex:
        me = e.st.mem.get(("P", "self"), SELF)
        more = {I.ev(e.st, tlt(cnt, n)) for n in lens} - {None}
        v = e.val
        if ck.ob("row.next/end", more in ({True}, {False}), "does not look whether cells are left", w):
            if more == {False}:
                ck.ob("row.next/none", v.op == "S" and v.args[1] == "None" and same(I, e.st, me, SELF), f"at the end gives {show(v)[:100]} and becomes {show(me)[:100]}", w)
            elif ck.ob("row.next/some", v.op == "S" and v.args[1] == "Some", f"gives {show(v)[:100]} with cells left", w):
                somes.append((get_field(v, "Some.0"), e.st))
                ck.ob("row.next/moves", same(I, e.st, me, set_field(SELF, "counter", add(cnt, C(1)))), f"the row becomes {show(me)[:200]}", w)
    if somes:
        R.decodes(ck, "row.next", somes, SELF, cnt, w)
    else:
        ck.fail("row.next/some", "never gives a cell", w)
    ck.ob("row.next/start", R.consts.get("counter") is C(0), f"a new row starts at {R.consts.get('counter')}", w)
    I, ex, w = go("len", row)
    for e in ex:
        ck.ob("row.len", any(same(I, e.st, e.val, sub(n, cnt)) for n in lens), f"reports {show(e.val)} cells left", w)
    # a board: rows in order
    I, ex, w = go("index", brd)
    for e in ex:
        ck.ob("board[i]", I.deep(e.st, e.val) is select(F("value"), A2), f"row is {show(I.deep(e.st, e.val))[:200]}", w)
    I, ex, w = go("next", brd)
    kinds = set()
    for e in ex:
        me = e.st.mem.get(("P", "self"), SELF)
        more = I.ev(e.st, tlt(cnt, mk("len", F("value"))))
        v = I.deep(e.st, e.val)
        kinds.add(more)
        if more is True:
            ck.ob("board.next/some", v.op == "S" and v.args[1] == "Some" and get_field(v, "Some.0") is select(F("value"), cnt), f"gives {show(v)[:200]}", w)
            ck.ob("board.next/moves", same(I, e.st, me, set_field(SELF, "counter", add(cnt, C(1)))), f"the board becomes {show(me)[:200]}", w)
        else:
            ck.ob("board.next/none", more is False and v.op == "S" and v.args[1] == "None" and same(I, e.st, me, SELF), f"gives {show(v)[:200]}", w)
    ck.ob("board.next/both", kinds == {True, False}, f"cases {kinds}", w)
    # making and refilling a board
    V1 = mk("init", "a1")
    for nm, src in (("SafeBoard::new", V1), ("SafeBoard::set", A2)):
        g = fn_named(prog(), nm)
        I = Interp(prog(), opaque=[R.name])
        I.split = lambda n: True
        ex = I.analyse(g.name)
        ck.use(I, ex)
        w = wh(g)
        ck.ob(nm + "/exits", bool(ex), "never returns", w)
        for e in ex:
            b = e.val if src is V1 else e.st.mem.get(("P", "self"), SELF)
            rows = get_field(b, "value")
            in_order(ck, nm, I, e.st, rows, lambda i: mk("call", R.name, (select(src, i),)), [mk("len", src)], w)
            ck.ob(nm + "/counter", get_field(b, "counter") in ((C(0),) if src is V1 else (C(0), cnt)), f"the iteration starts at {show(get_field(b, 'counter'))}", w)
    # a board as lists
    I, ex, w = go("into_vec_vec", brd)
    for e in ex:
        inner = {}

        def rowlist(i):
            return None
        t = e.val
        if t.op != "phi":
            ck.fail("into_vec_vec", f"gives {show(t)[:200]}", w)
            continue
        els = {b.args[1] for b in I.phi_in[t] if b.op == "push" and b.args[0] is t}
        if not ck.ob("into_vec_vec/rows", len(els) == 1, f"rows {[show(x)[:100] for x in els]}", w):
            continue
        el = els.pop()
        idx = in_order(ck, "into_vec_vec", I, e.st, t, lambda i: el, [mk("len", F("value"))], w)
        if idx is None:
            continue
        r = select(F("value"), idx)
        dims = [mk("len", get_field(x, nm)) for x in (r, select(F("value"), C(0))) for nm in R.elem]
        if el.op == "call":
            ck.ob("into_vec_vec/row", el.args[0].endswith("into_vec"), f"row {show(el)}", w)
            continue
        for s in [s for s in arrivals(I, t.args[0]) if at(s, idx) is add(idx, C(1))]:
            class E:
                st, val = s, at(s, t).args[1]
            listing(ck, "into_vec_vec/row", R, I, E, E.val, r, dims, w)
    # dimensions
    for impl, rows, cell in ((r"^(ms_toollib::)?.*SafeBoard$", lambda b: get_field(b, "value"), lambda x: [mk("len", get_field(x, nm)) for nm in R.elem]), (r"i32>>$", lambda b: b, lambda x: [mk("len", x)])):
        n = 0
        for g in [f for f in prog().fns.values() if f.name.endswith("::get_row") or f.name.endswith("::get_column")]:
            if not (g.impl_self and re.search(impl, g.impl_self)):
                continue
            n += 1
            I = Interp(prog())
            ex = I.analyse(g.name)
            ck.use(I, ex)
            me = mk("deref", SELF)
            for e in ex:
                bases = {y for y in subterms(e.val) if y.op in ("init", "deref", "*") or show(y) in ("self", "*(self)")}
                want = []
                for b in bases:
                    want += [mk("len", rows(b))] if g.name.endswith("row") else cell(select(rows(b), C(0)))
                ck.ob("dimensions/" + ("rows" if g.name.endswith("row") else "columns"), stored(e.val) in want, f"{g.name} gives {show(e.val)}", wh(g))
        ck.floor("dimension routines " + impl, n, 4)


def in_order(ck, k, I, st, t, elem, dims, w):
    """t is a list that got elem(i) for every index i from 0 on; the index variable, or None"""
    if t.op != "phi":
        return ck.fail(k, f"gives {show(t)[:200]}", w) and None
    hid = t.args[0]
    idx = [p for p in I.phi_in if p.args[0] == hid and set(I.phi_in[p]) == {C(0), add(p, C(1))}]
    if not ck.ob(k + "/index", len(idx) == 1, "no index that runs up one by one", w):
        return None
    i = idx[0]
    ck.ob(k + "/empty", {b for b in I.phi_in[t] if not mentions(b, lambda y: y is t)} == {mk("veclit")}, f"starts as {[show(b)[:80] for b in I.phi_in[t]]}", w)
    for s in arrivals(I, hid):
        if at(s, i) is add(i, C(1)):
            ck.ob(k + "/each", at(s, t) is mk("push", t, elem(i)), f"a round makes it {show(at(s, t))[:200]}", w)
            ck.ob(k + "/range", any(I.ev(s, tlt(i, d)) is True for d in dims), "works past the end", w)
    ck.ob(k + "/all", any(I.ev(st, tlt(i, d)) is False for d in dims), "ends before the last", w)
    return i


def known(st, c):
    """truth of a comparison among the facts of a path, rows of a board being fresh"""
    for f, v in st.facts.items():
        if stored(f) is c:
            return v
    return None


def listing(ck, k, R, I, e, t, row, dims, w):
    """t lists all cells of the row, decoded, in order"""
    if t.op != "phi":
        return ck.fail(k, f"gives {show(t)[:200]}", w)
    hid = t.args[0]
    idx = [p for p in I.phi_in if p.args[0] == hid and set(I.phi_in[p]) == {C(0), add(p, C(1))}]
    if not ck.ob(k + "/index", len(idx) == 1, "no index that runs up one by one", w):
        return
    i = idx[0]
    ck.ob(k + "/empty", {b for b in I.phi_in[t] if not mentions(b, lambda y: y is t)} == {mk("veclit")}, f"starts as {[show(b)[:80] for b in I.phi_in[t]]}", w)
    cases = []
    for s in arrivals(I, hid):
        if at(s, i) is not add(i, C(1)):
            continue
        v = at(s, t)
        if ck.ob(k + "/each", v.op == "push" and v.args[0] is t, f"a round makes it {show(v)[:200]}", w):
            cases.append((v.args[1], s))
        ck.ob(k + "/range", any(known(s, tlt(i, d)) is True for d in dims), "works past the end", w)
    ck.ob(k + "/all", any(known(e.st, tlt(i, d)) is False for d in dims), "ends before the last cell", w)
    R.decodes(ck, k, cases, row, i, w)


# ------------------------------------------------------------------------------------------- remembered results
def s02(ck):
    ck.rule = ("Which flag guards which stored figure is read off the getters' own short cuts (a path that returns a stored field under a true flag). On every other path of every getter the value returned equals the statistic "
               "computed from the board (with stored figures standing for theirs where their flag is known true), a flag is raised only together with storing its figure's value, and the board is not changed; a new board has no flag raised.")
    p = prog()
    util = {x: fn_named(p, "utils::" + x).name for x in ("cal3BVonIsland", "cal_op", "cal_isl", "cal_cell_nums")}
    brd = mk("ref", F("board"))
    call = lambda x: mk("call", util[x], (brd,))
    stat = {"get_bbbv": add(call("cal3BVonIsland"), call("cal_op")), "get_op": call("cal_op"), "get_isl": call("cal_isl")}
    stat.update({f"get_cell{i}": select(call("cal_cell_nums"), C(i)) for i in range(9)})
    runs = {}
    for nm in stat:
        g = fn_named(p, nm, r"::Board$")
        I = Interp(p, opaque=list(util.values()))
        I.split = lambda n: True
        ex = I.analyse(g.name)
        ck.use(I, ex)
        ck.ob(nm + "/exits", bool(ex), "never returns", wh(g))
        runs[nm] = (I, ex, wh(g))
    # what is remembered where: field -> (flags, value)
    mem = {}
    for nm, (I, ex, w) in runs.items():
        for e in ex:
            v = I.deep(e.st, e.val)
            if v.op == "." and v.args[0] is SELF and e.st.mem.get(("P", "self"), SELF) is SELF:
                fl = frozenset(f for f, b in e.st.facts.items() if b and f.op == "." and f.args[0] is SELF)
                if ck.ob(nm + "/remembered", len(fl) >= 1, f"gives {show(v)} back without knowing that it was computed", w):
                    old = mem.setdefault(v, (fl, stat[nm]))
                    ck.ob(nm + "/remembered", old[1] is stat[nm], f"{show(v)} stands for two figures", w)
                    mem[v] = (old[0] & fl, stat[nm])
    flags = set()
    for v, (fl, _) in mem.items():
        ck.ob("flag", len(fl) >= 1, f"{show(v)} is used under different flags", "")
        flags |= fl
    n = 0
    for nm, (I, ex, w) in runs.items():
        for e in ex:
            true = {f for f, b in e.st.facts.items() if b}
            d = {v: val for v, (fl, val) in mem.items() if fl & true}
            v = subst(I.deep(e.st, e.val), d)
            n += 1
            ck.ob(nm + "/value", v is stat[nm], f"gives {show(v)[:200]}, the figure is {show(stat[nm])[:200]}", w)
            me = e.st.mem.get(("P", "self"), SELF)
            for f in flags:
                now = get_field(me, f.args[1])
                if now is f:
                    up = f in true
                    if not up:
                        continue
                    wh_ = [x for x in mem if f in mem[x][0] and get_field(me, x.args[1]) is not x]
                    for x in wh_:
                        ck.ob(f"{nm}/store/{x.args[1]}", subst(get_field(me, x.args[1]), d) is mem[x][1], f"{x.args[1]} becomes {show(get_field(me, x.args[1]))[:200]}", w)
                    continue
                if now is FALSE:
                    continue
                ck.ob(f"{nm}/flag/{f.args[1]}", now is TRUE, f"{f.args[1]} becomes {show(now)[:100]}", w)
                for x, (fl, val) in mem.items():
                    if f in fl:
                        s = subst(get_field(me, x.args[1]), d)
                        ck.ob(f"{nm}/store/{x.args[1]}", s is val, f"{f.args[1]} is raised with {x.args[1]} being {show(s)[:200]}", w)
            ck.ob(nm + "/board", get_field(me, "board") is F("board"), "the board is changed", w)
    ck.floor("getter paths", n, 12)
    g = fn_named(p, "new", r"::Board$")
    I = Interp(p)
    ex = I.analyse(g.name)
    ck.use(I, ex)
    for e in ex:
        for f in flags:
            ck.ob("new/" + f.args[1], get_field(e.val, f.args[1]) is FALSE, f"a new board has {f.args[1]} {show(get_field(e.val, f.args[1]))}", wh(g))
        ck.ob("new/board", get_field(e.val, "board") is mk("init", "a1"), "a new board does not hold what it was given", wh(g))


def flat_list(t):
    """the lists a list was put together from"""
    if t.op == "append":
        return flat_list(t.args[0]) + flat_list(t.args[1])
    if t.op in ("veclit", "emptyvec") and not t.args:
        return []
    return [t]


def raster(ck, k, I, st, t, grid_ok, cond, w, empties=()):
    """the list t holds exactly the cells (i, j) of a grid for which cond, row by row"""
    inner = [p for p in I.phi_in if any(b.op == "push" and b.args[0] is p for b in I.phi_in[p]) and p.args[1:] == t.args[1:]] if t.op == "phi" else []
    if not ck.ob(k, len(inner) == 1, f"is {show(t)[:200]}", w):
        return None
    L = inner[0]
    N = Nest(I, L.args[0])
    if not ck.ob(k + "/loops", not N.bad, str(N.bad), w):
        return None
    ini = N.init.get(L.args[1:])
    ck.ob(k + "/empty", ini is not None and all(flat_list(x) == [] or x in empties for x in ini), f"starts as {ini and [show(x)[:100] for x in ini]}", w)
    grid = None
    kinds = set()
    for s in N.back:
        v = at(s, L)
        ps = [x for x in N.vars.values() if at(s, x) is add(x, C(1))]
        cell = None
        for f in s.facts:
            for x in subterms(f):
                if x.op == "sel" and x.args[0].op == "sel" and x.args[1] in ps and grid_ok(x.args[0].args[0]):
                    cell = x
        if not ck.ob(k + "/cell", cell is not None, "a cell is passed without looking at it", w):
            continue
        g, i, j = cell.args[0].args[0], cell.args[0].args[1], cell.args[1]
        grid = g
        r = board_ok(I, s, i, j, [mk("len", g)], [mk("len", select(g, C(0))), mk("len", select(g, i))])
        ck.ob(k + "/all", not r, f"not every cell is looked at: {r}", w)
        yes = I.ev(s, cond(cell))
        if ck.ob(k + "/decided", yes is not None, "a cell is passed without telling", w):
            kinds.add(yes)
            want = mk("push", L, S("tuple", None, {"0": i, "1": j})) if yes else L
            ck.ob(k + "/takes", v is want, f"the list becomes {show(v)[:200]} for a cell that {'belongs' if yes else 'does not belong'} to it", w)
    ck.ob(k + "/kinds", kinds == {True, False}, f"{kinds}", w)
    return grid


def s03(ck):
    ck.rule = ("With the solvers symbolic: every path of every getter that finds its results computed returns them as stored; the others run the direct solver on the matrices of the cleaned board, then the subset solver, then enumeration, each on what the one before left, "
               "store exactly their lists (mines from a full scan of the marked board), raise the flag, and hand back the stored field; the possibilities come from the marked board and the mine number. Setting a board stores it, a copy with all marks covered, and drops all results.")
    p = prog()
    ops = {x: fn_named(p, q).name for x, q in (("mat", "utils::refresh_matrixs"), ("dir", "solve_direct"), ("min", "solve_minus"), ("enu", "solve_enumerate"), ("pos", "cal_possibility_onboard"))}
    LISTS = {"get_basic_not_mine": "basic_not_mine", "get_basic_is_mine": "basic_is_mine", "get_enum_not_mine": "enum_not_mine", "get_enum_is_mine": "enum_is_mine"}
    relied = set()     # stored lists whose emptiness before the first analysis is relied on
    B0 = None
    n = 0
    for nm in list(LISTS) + ["get_poss"]:
        g = fn_named(p, nm, r"::GameBoard$")
        I = Interp(p, opaque=list(ops.values()))
        I.split = lambda n: True
        ex = I.analyse(g.name)
        ck.use(I, ex)
        w = wh(g)
        ck.ob(nm + "/exits", bool(ex), "never returns", w)
        for e in ex:
            me = e.st.mem.get(("P", "self"), SELF)
            fl = {f.args[1]: b for f, b in e.st.facts.items() if f.op == "." and f.args[0] is SELF}
            res = I.deep(e.st, e.val)
            fieldnm = LISTS.get(nm, "poss")
            n += 1
            ck.ob(nm + "/board", get_field(me, "game_board") is F("game_board") and get_field(me, "mine_num") is F("mine_num"), "the player's board or the mine number changes", w)
            ck.ob(nm + "/field", res is get_field(me, fieldnm), f"gives {show(res)[:200]}", w)
            marked, poss = fl.get("is_marked"), fl.get("has_poss")
            if me is SELF:
                ck.ob(nm + "/computed", (marked if nm in LISTS else poss) is True, "gives a result back without knowing that it was computed", w)
                continue
            # analysis of the board
            if marked is True:
                ck.ob(nm + "/keeps", all(get_field(me, x) is F(x) for x in list(LISTS.values()) + ["game_board_marked", "is_marked"]), "results already computed change", w)
                bm = F("game_board_marked")
            else:
                if not ck.ob(nm + "/first", marked is False, "analyses the board without looking whether it has been", w):
                    continue
                ck.ob(nm + "/is_marked", get_field(me, "is_marked") is TRUE, "the analysis is not remembered", w)
                bm = analysed_board(ck, nm, I, e, me, ops, relied, w)
                if bm is None:
                    continue
            if nm == "get_poss":
                ck.ob("poss/first", poss is False, "computed again", w)
                ck.ob("poss/has_poss", get_field(me, "has_poss") is TRUE, "the possibilities are not remembered", w)
                want = mk("call", ops["pos"], (mk("ref", bm), i2f(F("mine_num"))))
                ck.ob("poss/value", res is get_field(get_field(want, "Ok.0"), "0"), f"possibilities {show(res)[:300]}", w)
            else:
                ck.ob(nm + "/poss", get_field(me, "poss") is F("poss") and get_field(me, "has_poss") is F("has_poss"), "the possibilities change", w)
    ck.floor("getter paths", n, 11)
    # new and set
    g = fn_named(p, "new", r"::GameBoard$")
    I = Interp(p)
    ex = I.analyse(g.name)
    ck.use(I, ex)
    for e in ex:
        for x in ("is_marked", "has_poss"):
            ck.ob("new/" + x, get_field(e.val, x) is FALSE, f"a new one has {x} {show(get_field(e.val, x))}", wh(g))
        ck.ob("new/mine_num", get_field(e.val, "mine_num") is mk("init", "a1"), "mine number", wh(g))
        for x in relied:
            ck.ob("new/" + x, flat_list(get_field(e.val, x)) == [], f"{x} starts as {show(get_field(e.val, x))}", wh(g))
    g = fn_named(p, "set_game_board", r"::GameBoard$")
    I = Interp(p)
    I.split = lambda n: True
    ex = I.analyse(g.name)
    ck.use(I, ex)
    w = wh(g)
    ck.ob("set/exits", bool(ex), "never returns", w)
    for e in ex:
        me = e.st.mem.get(("P", "self"), SELF)
        for x in ("is_marked", "has_poss"):
            ck.ob("set/" + x, get_field(me, x) is FALSE, f"{x} is {show(get_field(me, x))} for a board never analysed", w)
        for x in relied:
            ck.ob("set/" + x, flat_list(get_field(me, x)) == [], f"{x} keeps {show(get_field(me, x))[:200]}", w)
        ck.ob("set/board", get_field(me, "game_board") is A2, f"the board becomes {show(get_field(me, 'game_board'))[:200]}", w)
        ck.ob("set/mine_num", get_field(me, "mine_num") is F("mine_num"), "the mine number changes", w)
        cleaned(ck, "set/marked", I, e, get_field(me, "game_board_marked"), A2, w)


def cleaned(ck, k, I, e, t, src, w):
    """t is the grid src with every value above 10 replaced by 10"""
    if built(I, t):
        from props.grids import gridmap
        big = lambda s, i, j, cell: {None: None, True: C(10), False: KEPT}[cell(lambda c: tlt(C(10), c))]
        from props.grids import KEEP as KEPT
        ks = gridmap(ck, k, I, t, [src], big, [], lambda i: [], w)
        ck.ob(k + "/kinds", ks is not None and len(ks) == 2, f"{ks}", w)
        return
    inner = [q for q in I.phi_in if t.op == "phi" and q.args[1:] == t.args[1:] and any(peel(b)[0] is q and b is not q for b in I.phi_in[q])]
    if not ck.ob(k, len(inner) == 1, f"becomes {show(t)[:200]}", w):
        return
    G = inner[0]
    N = Nest(I, G.args[0])
    if not ck.ob(k + "/loops", not N.bad, str(N.bad), w):
        return
    ck.ob(k + "/copy", N.init.get(G.args[1:]) == {src}, f"starts as {[show(x)[:100] for x in N.init.get(G.args[1:]) or ()]}", w)
    out = N.outer_of(G.args[1:])
    kinds = set()
    for s in N.back:
        v = at(s, G)
        ps = [x for x in N.vars.values() if at(s, x) is add(x, C(1))]
        cells = {x for f in s.facts for x in subterms(f) if x.op == "sel" and x.args[0].op == "sel" and x.args[0].args[0] in (G, src) and x.args[1] in ps}
        if not ck.ob(k + "/cell", len(cells) == 1, "a cell is passed without looking at it", w):
            continue
        c = cells.pop()
        i, j = c.args[0].args[1], c.args[1]
        dims = lambda f: [mk("len", f(x)) for x in (G, src, out)]
        r = board_ok(I, s, i, j, dims(lambda x: x), dims(lambda x: select(x, C(0))) + dims(lambda x: select(x, i)))
        ck.ob(k + "/all", not r, f"not every cell is cleaned: {r}", w)
        big = I.ev(s, tlt(C(10), c))
        if not ck.ob(k + "/decided", big is not None, "a cell is passed without telling whether it is marked", w):
            continue
        kinds.add(big)
        b, ws = peel(v)
        if big:
            ck.ob(k + "/covered", b is G and ws == [(i, j, C(10))], f"a mark becomes {show(v)[:200]}", w)
        else:
            ck.ob(k + "/kept", v is G, f"an opened or covered cell is changed: {show(v)[:200]}", w)
    ck.ob(k + "/kinds", kinds == {True, False}, f"{kinds}", w)


def analysed_board(ck, nm, I, e, me, ops, relied, w):
    """the first analysis of a board; the marked board it leaves, or None"""
    def lst(x):
        t = get_field(me, x)
        got = flat_list(t)
        if got and got[0] is F(x):
            relied.add(x)
            got = got[1:]
        return got
    ref = lambda x: mk("ref", x)
    b = F("game_board_marked")
    m = mk("call", ops["mat"], (ref(b),))
    da = (ref(get_field(m, "0")), ref(get_field(m, "1")), ref(get_field(m, "2")), ref(b))
    D = mk("call", ops["dir"], da)
    ma = tuple(ref(mk("eff", ops["dir"], i, da)) for i in range(4))
    M = mk("call", ops["min"], ma)
    mats = tuple(mk("eff", ops["min"], i, ma) for i in range(4))
    E = mk("call", ops["enu"], tuple(ref(x) for x in mats[:3]))
    first = lambda r, i: get_field(get_field(r, "Ok.0"), str(i))
    ck.ob(nm + "/basic_not_mine", lst("basic_not_mine") == [first(D, 0), first(M, 0)], f"safe cells {[show(x)[:200] for x in lst('basic_not_mine')]}", w)
    ck.ob(nm + "/enum_not_mine", lst("enum_not_mine") == [get_field(E, "0")], f"enumerated safe cells {[show(x)[:200] for x in lst('enum_not_mine')]}", w)
    ck.ob(nm + "/enum_is_mine", lst("enum_is_mine") == [get_field(E, "1")], f"enumerated mines {[show(x)[:200] for x in lst('enum_is_mine')]}", w)
    bm = get_field(me, "game_board_marked")
    # safe cells are marked 12 on what the solvers left; nothing else is
    cs = Cells(I, bm, e.st)
    ck.ob(nm + "/marked/base", {x for x, _ in cs.bases} == {mats[3]}, f"the marked board comes from {[show(x)[:100] for x, _ in cs.bases]}", w)
    safe = (first(D, 0), first(M, 0))
    for i, j, v, st in cs.writes:
        src = i.args[0] if i.op == "." and i.args[1] == "0" else None
        ck.ob(nm + "/marked/12", v is C(12) and src is not None and j is get_field(src, "1") and src.op == "sel" and [x for x in flat_list(src.args[0]) if x is not F("basic_not_mine")] == list(safe),
              f"cell {show(i)[:80]} is marked {show(v)}", w)
        if src is not None and src.op == "sel":
            r = full_axis(I, st, src.args[1], [mk("len", src.args[0])]) or cell_passed(I, cs, src.args[1], lambda g: teq(select(select(g, i), j), C(12)))
            ck.ob(nm + "/marked/all", not r, f"not every safe cell is marked: {r}", w)
    ck.ob(nm + "/marked/some", len(cs.writes) >= 1, "safe cells are not marked", w)
    t = get_field(me, "basic_is_mine")
    if lst("basic_is_mine") != [first(D, 1), first(M, 1)]:
        grid = raster2(ck, nm + "/basic_is_mine", I, e, t, relied, {bm, mats[3]}, w)
    return bm


def cell_passed(I, cs, index, already):
    """a turn of the loop over the index that leaves the grid as it is without need"""
    h = the_phi(index).args[0]
    for p, s in cs.kept:
        if p.args[0] == h and I.ev(s, already(p)) is not True:
            return "one is passed over"
    return ""


def raster2(ck, k, I, e, t, relied, grids, w):
    mine = F("basic_is_mine")
    if t.op == "phi":
        init = {x for p in I.phi_in if p.args[1:] == t.args[1:] for x in I.phi_in[p] if not mentions(x, lambda y: y.op == "phi" and y.args[1:] == t.args[1:])}
        if mine in init:
            relied.add("basic_is_mine")
    return raster(ck, k, I, e.st, t, lambda g: g in grids, lambda c: teq(c, C(11)), w, (mine,))
