"""Laying mines: which cell each entry of the shuffled list goes to, and the numbers around a mine."""
from props.grids import *

MINE = C(-1)


class Pass:
    """one loop over the cells of a grid; each turn may put a mine on one cell and may go through the window round it"""

    def __init__(self, ck, k, I, t, w):
        self.ok = False
        self.I = I
        cs = Cells(I, t)
        self.cs = cs
        incs = [(p, ws[0], s) for p, u, s, ws in cs.edges if len(ws) == 1 and ws[0][2] is add(select(select(p, ws[0][0]), ws[0][1]), C(1)) and peel(u)[0] is p] if t.op == "phi" else []
        self.incs = incs
        inner = {p for p, _, _ in incs}
        if not ck.ob(k + "/numbering", len(inner) <= 1, "numbers rise in several places", w):
            return
        loops = {}
        self.p1 = None
        if inner:
            self.p1 = p1 = inner.pop()
            for _, (i, j, _), s in incs:
                for x in (i, j):
                    q = the_phi(x)
                    if q is not None:
                        loops[q.args[0]] = 1
        win = {p for p in cs.phis if p.args[0] in loops}
        self.entry = []
        for p, u, s, ws in cs.edges:
            if p in win and peel(u)[0] not in win:
                self.entry.append((u, s, peel(u)[0], ws))
        # the loop whose turns are cells: the one the window is entered from, or the one mines are written in
        heads = {b for _, _, b, _ in self.entry} if win else {p for p, u, s, ws in cs.edges if ws}
        if not ck.ob(k + "/pass", len(heads) == 1 and next(iter(heads)).op == "phi", f"is {show(t)[:150]}, not the outcome of a pass over the cells", w):
            return
        P = self.P = heads.pop()
        N = Nest(I, P.args[0])
        up = mk("phi", N.outer, *P.args[1:]) if N.outer is not None else None
        self.row_loop = up if up is not None and up in I.phi_in and P in I.phi_in[up] else None
        self.N = N
        self.vars = N.vars
        known = {P, self.row_loop} | win
        # loops the board went through before this pass
        rest = [p for p in cs.phis if p not in known and any(peel(u)[0] in known for q, u, s, ws in cs.edges if q is p)]
        if not ck.ob(k + "/loops", not rest, f"{[show(p) for p in rest]}", w):
            return
        self.turns = []
        good = True
        for s in N.back:
            b, ws = peel(at(s, P))
            if b is P:
                self.turns.append((s, ws, False))
            elif b in win:
                self.turns.append((s, ws, True))
            else:
                good = False
        if not ck.ob(k + "/turns", good and bool(self.turns), "a turn of the pass does something else to the board", w):
            return
        first = self.row_loop or P
        self.bases = {peel(u)[0] for p, u, s, ws in cs.edges if p is first and peel(u)[0] not in known} | {u for p, u, s, ws in cs.edges if p is first and ws and peel(u)[0] not in known}
        self.win = win
        self.ok = True

    def mines(self):
        """[(x, y)] the cells mines are written to"""
        return {(i, j) for _, ws, _ in self.turns for i, j, v in ws if v is MINE} | {(i, j) for _, _, _, ws in self.entry for i, j, v in ws if v is MINE}

    def window(self, ck, k, centre, rows, cols, w):
        """the window pass raises by one exactly the cells of the clipped window that are no mines"""
        I = self.I
        if not ck.ob(k + "/numbers", bool(self.incs), "no number rises round a mine", w):
            return
        for p, (i, j, v), s in self.incs:
            lens = [mk("len", x) for x in (p, self.P)]
            lensc = [mk("len", select(x, z)) for x in (p, self.P) for z in (C(0), i)]
            r = window_ok(I, s, i, j, centre, rows + lens, cols + lensc)
            ck.ob(k + "/window", not r, r, w)
            c = select(select(p, i), j)
            ck.ob(k + "/safe-cells", nomine(I, s, c) is True, f"the number of cell ({show(i)},{show(j)}) rises although it may hold a mine", w)
            jp = the_phi(j)
            for q, s2 in self.cs.kept:
                if q is p and at(s2, jp) is add(jp, C(1)):
                    ck.ob(k + "/all-cells", nomine(I, s2, c) is False, f"the number of cell ({show(i)},{show(j)}) may stay", w)
        seen = [q for q, u, s, ws in self.cs.edges if q in self.win and ws and peel(u)[0] in self.win and not any(ws == [x] and q is p for p, x, _ in self.incs)]
        ck.ob(k + "/only", not seen, "the pass through the window does something else to the board", w)


def nomine(I, s, c):
    for q in (teq(c, MINE), tlt(c, C(0))):
        r = I.ev(s, q)
        if r is not None:
            return not r
    return None


def segments(I, t, deep=False):
    """a list as pieces put one after the other: ("one", x), ("slice", B, lo, hi), ("fill", x, n); None when it is not"""
    if t.op == "veclit":
        return [("one", x) for x in t.args]
    if t.op == "push":
        a = segments(I, t.args[0], True)
        return a + [("one", t.args[1])] if a is not None else None
    if t.op == "append":
        a, b = segments(I, t.args[0], True), segments(I, t.args[1], True)
        return None if a is None or b is None else a + b
    if t.op == "from_elem":
        return [("fill", t.args[0], t.args[1])]
    if t.op == "slice":
        return [("slice", *t.args)]
    if t.op == "shuffled":
        return [("slice", t, C(0), mk("len", t))]
    if t.op == "inserted":
        b, i, x = t.args
        return [("slice", b, C(0), i), ("one", x), ("slice", b, i, mk("len", b))]
    return [("all", t)] if deep and t.op in ("phi", "store", "resized", "call") else None


class Deck:
    """the shuffled list mines are dealt from, as seen through the lists built from it"""

    def __init__(self, I, t):
        self.I, self.t = I, t
        self.decks = {x for x in self.reach(t, set()) if x.op == "shuffled"}
        self.memo = {}

    def reach(self, t, seen):
        """the terms a list is made of, through the loops that build it"""
        for x in subterms(t):
            if x in seen:
                continue
            seen.add(x)
            if x.op == "phi":
                for u in self.I.phi_in.get(x, {}):
                    self.reach(u, seen)
        return seen

    def cards(self, env):
        """what each position of the list holds: a position of the shuffled list or a constant"""
        self.memo = {}
        return self.expand(self.t, env)

    def contents(self, d, env):
        return self.expand(d.args[0], env)

    def expand(self, t, env):
        if t not in self.memo:
            self.memo[t] = self.make(t, env)
        return self.memo[t]

    def make(self, t, env):
        if t.op == "shuffled":
            return [("card", i) for i in range(len(self.expand(t.args[0], env)))]
        if t.op == "phi":
            return self.loop(t, env)
        if t.op == "store":
            b, i = self.expand(t.args[0], env), self.value(t.args[1], env)
            if not 0 <= i < len(b):
                raise NoValue(f"position {i} of {len(b)}")
            return b[:i] + [self.entry(t.args[2], env)] + b[i + 1:]
        if t.op == "resized":
            b, n = self.expand(t.args[0], env), self.value(t.args[1], env)
            return b[:n] + [t.args[2]] * (n - len(b))
        if t.op == "call" and t.args[0].endswith("Iterator::take") and t.args[1][0].op == "call" and t.args[1][0].args[0].endswith("iter::repeat"):
            return [t.args[1][0].args[1][0]] * self.value(t.args[1][1], env)
        if t.op == "call" and t.args[0].endswith("iter::repeat_n"):
            return [t.args[1][0]] * self.value(t.args[1][1], env)
        sg = segments(self.I, t)
        if sg is None:
            raise NoValue(show(t))
        out = []
        for x in sg:
            if x[0] == "one":
                out.append(self.entry(x[1], env))
            elif x[0] == "fill":
                out += [x[1]] * self.value(x[2], env)
            elif x[0] == "all":
                out += self.expand(x[1], env)
            else:
                b = self.expand(x[1], env)
                lo, hi = self.value(x[2], env), self.value(x[3], env)
                if not 0 <= lo <= hi <= len(b):
                    raise NoValue(f"{show(t)} at {lo}..{hi} of {len(b)}")
                out += b[lo:hi]
        return out

    def entry(self, x, env):
        if x.op == "sel":
            b, i = self.expand(x.args[0], env), self.value(x.args[1], env)
            if 0 <= i < len(b):
                return b[i]
            raise NoValue(f"position {i} of {len(b)}")
        if is_int(x):
            return x
        raise NoValue(show(x))

    def loop(self, t, env):
        """a list built in a loop: the loop's counters are followed turn by turn"""
        I, h = self.I, t.args[0]
        ps = [p for p in I.phi_in if p.args[0] == h]
        back = [s for s in arrivals(I, h) if any(at(s, p) is not None and at(s, p) is not p and mentions(at(s, p), lambda x: x in ps) for p in ps)]
        into = [s for s in arrivals(I, h) if s not in back]
        cur = {}
        for p in ps:
            v = {at(s, p) for s in into}
            if len(v) == 1 and p is not t and v != {None}:
                try:
                    cur[p] = self.value(next(iter(v)), env)
                except NoValue:
                    pass
        start = {at(s, t) for s in into}
        if len(start) != 1 or None in start:
            raise NoValue(show(t))
        val = list(self.expand(start.pop(), env))
        for _ in range(200):
            e = dict(env)
            e.update(cur)
            self.memo[t] = val
            go = [s for s in back if self.possible(s, e)]
            end = [s for s in I.leaves.get(h, ()) if self.possible(s, e)]
            if end and not go:
                return val
            if len(go) != 1 or end:
                raise NoValue(f"{show(t)}: {len(go)} ways on, {len(end)} ways out")
            s = go[0]
            val = self.make(at(s, t), e) if at(s, t) is not t else val
            nxt = {}
            for p in cur:
                try:
                    nxt[p] = self.value(at(s, p), e)
                except NoValue:
                    pass
            for x in [x for x in self.memo if mentions(x, lambda y: y.op == "phi" and y.args[0] == h)]:
                del self.memo[x]
            cur = nxt
        raise NoValue(show(t))

    def possible(self, s, env):
        for f, v in s.facts.items():
            try:
                if bool(self.value(f, env)) is not v:
                    return False
            except NoValue:
                pass
        return True

    def value(self, t, env):
        e = env
        for u in list(subterms(t)):
            if u.op == "len" and u not in e:
                try:
                    n = len(self.expand(u.args[0], env))
                except NoValue:
                    continue
                e = dict(e) if e is env else e
                e[u] = n
        return ceval(t, e)


def dealt(ck, k, I, ps, row, col, mines, safe, w):
    """one card of the shuffled list for every cell outside the safe area, none for the safe cells: followed turn by turn on every board up to 5x5"""
    P, N = ps.P, ps.N
    vars_ = list(ps.vars.values())
    reads = {}
    known = {}
    # a turn through the window is judged by what is known where it enters the window
    paths = [(s, ws, wd, s2) for s, ws, wd in ps.turns for s2 in ([x[1] for x in ps.entry] if wd else [s])]
    for _, _, _, s in paths:
        reads[s] = []
        for f in s.facts:
            for x in subterms(f):
                if x.op == "sel":
                    if x.args[0] not in known:
                        known[x.args[0]] = bool(Deck(I, x.args[0]).decks)
                    if known[x.args[0]]:
                        reads[s].append(x)
    lists = {x.args[0] for r in reads.values() for x in r}
    if not ck.ob(k + "/deck", len(lists) == 1, f"mines come from {[show(x)[:80] for x in lists]}", w):
        return
    D = Deck(I, lists.pop())
    # the index variables of the pass
    counters = {}
    for p in vars_:
        if p is P:
            continue
        ini = N.init.get(p.args[1:]) if ps.row_loop is not None else {at(s, p) for s in arrivals(I, P.args[0]) if s not in N.back}
        counters[p] = next(iter(ini)) if ini and len(ini) == 1 else None
    cell = ps.mines()
    if not ck.ob(k + "/mine", len(cell) == 1, f"mines are laid at {[(show(a)[:60], show(b)[:60]) for a, b in cell]}", w):
        return
    cx, cy = cell.pop()
    a = {n: mk("init", n) for n in ("a1", "a2", "a3", "a4", "a5")}
    bad = ""
    boards = cells = 0
    bound = False
    if ps.row_loop is not None:
        rp = [q for q in I.phi_in if q.args[0] == ps.row_loop.args[0] and add(q, C(1)) in I.phi_in[q]]
        s0 = ps.turns[0][0]
        js = [x for x in vars_ if x is not P and all(at(s, x) is add(x, C(1)) for s, _, _ in ps.turns) and counters[x] is None]
        nest = [(i, j, o) for i in rp for j in js for o, (d1, d2) in ((0, (row, col)), (1, (col, row))) if not board_ok(I, s0, i, j, [d1], [d2])]
        if not ck.ob(k + "/all", bool(nest), "the cells are not passed each once", w):
            return
    else:
        q = [x for x in vars_ if x is not P and counters[x] is C(0) and all(at(s, x) is add(x, C(1)) for s, _, _ in ps.turns)]
        q = [x for x in q if not full_axis(I, ps.turns[0][0], x, [mul(row, col), mk("len", D.t)])]
        if not ck.ob(k + "/all", bool(q), "the cells are not passed each once", w):
            return
        bound = bool(full_axis(I, ps.turns[0][0], q[0], [mul(row, col)]))
    for r in range(1, 6):
        for c in range(1, 6):
            for x0 in range(r):
                for y0 in range(c):
                    free = safe(r, c, x0, y0)
                    m = (r * c - len(free)) * (1 + boards % 3) // 3
                    base = {row: r, col: c, a["a4"]: x0, a["a5"]: y0, mines: m}
                    boards += 1
                    try:
                        deck = D.cards(base)
                        base[mk("len", D.t)] = len(deck)
                        if bound and len(deck) != r * c:
                            bad = bad or f"board {r}x{c}: {len(deck)} cells are passed"
                        for d in D.decks:
                            cs = D.contents(d, base)
                            base[mk("len", d)] = len(cs)
                            if len(cs) != r * c - len(free) or cs.count(MINE) != m or cs.count(C(0)) != len(cs) - m:
                                bad = bad or f"board {r}x{c} opened at ({x0},{y0}), {m} mines: the cards are {cs.count(MINE)} mines among {len(cs)} cards, for {r * c - len(free)} cells"
                        hand = [ceval_or(t, base) for t in (counters[p] for p in counters)]
                        state = {p: v for p, v in zip(counters, hand) if v is not None}
                        used, laid = [], set()
                        for n in range(r * c):
                            cells += 1
                            if ps.row_loop is not None:
                                i, j, o = nest[0]
                                d2 = r if o else c
                                state[i], state[j] = divmod(n, d2)
                            env = dict(base)
                            env.update(state)
                            outs, nxt = set(), set()
                            for s, ws, wd, s2 in paths:
                                if not holds(s, env) or not holds(s2, env):
                                    continue
                                card = {at_deck(deck, x, env) for x in reads[s2]}
                                mined = bool(ws) or wd
                                card = card.pop() if len(card) == 1 else None if not card else "?"
                                if card == "?":
                                    bad = bad or "several cards are looked at for one cell"
                                if isinstance(card, T):       # a constant slipped into the list
                                    if mined and not (is_int(card) and card.args[0] < 0):
                                        continue
                                    card = None
                                outs.add((card, mined))
                                nxt.add(tuple(ceval_or(at(s, p), env) if p in state and at(s, p) is not None else None for p in counters))
                            x, y = ceval(cx, env), ceval(cy, env)
                            if not (0 <= x < r and 0 <= y < c):
                                bad = bad or f"a mine is laid off the board at ({x},{y}) of {r}x{c}"
                            if (x, y) in free:
                                if outs != {(None, False)}:
                                    bad = bad or f"board {r}x{c} opened at ({x0},{y0}): cell ({x},{y}) should stay without a mine"
                            else:
                                cs = {o[0] for o in outs}
                                if len(cs) != 1 or None in cs or {o[1] for o in outs} != {True, False}:
                                    bad = bad or f"board {r}x{c} opened at ({x0},{y0}): no card decides about cell ({x},{y})"
                                else:
                                    used.append(cs.pop())
                            laid.add((x, y))
                            if len(nxt) != 1:
                                bad = bad or f"the next cell depends on the card at ({x},{y})"
                                break
                            state = {p: v for p, v in zip(counters, nxt.pop()) if v is not None}
                            if bad:
                                break
                        if not bad and len(laid) != r * c:
                            bad = f"board {r}x{c}: {len(laid)} different cells are passed"
                        if not bad and sorted(used) != [("card", i) for i in range(r * c - len(free))]:
                            bad = f"board {r}x{c} opened at ({x0},{y0}): the cards dealt are {used[:6]}..."
                    except NoValue as ex:
                        bad = bad or f"not followed: {str(ex)[:160]}"
                    if bad:
                        break
    ck.ob(k + "/dealt", not bad, bad, w)
    ck.floor(k + " boards", boards, 225)


def ceval_or(t, env):
    try:
        return ceval(t, env) if t is not None else None
    except NoValue:
        return None


def at_deck(deck, x, env):
    i = ceval(x.args[1], env)
    if not 0 <= i < len(deck):
        raise NoValue(f"position {i} of {len(deck)} cards")
    return deck[i]


def mined_pass(ck, k, I, t, rows, cols, w, base_ok):
    """numbers on a board that holds mines already: every cell with a mine raises its window, once"""
    ps = Pass(ck, k, I, t, w)
    if not ps.ok:
        return None
    ck.ob(k + "/from", bool(ps.bases) and all(base_ok(b) for b in ps.bases), f"starts from {[show(b)[:120] for b in ps.bases]}", w)
    ck.ob(k + "/no-mines", not ps.mines() and not any(ws for _, ws, _ in ps.turns), "the numbering writes something else", w)
    P = ps.P
    G, N = ps.row_loop, ps.N
    if not ck.ob(k + "/nested", G is not None, "the cells are not passed row by row", w):
        return ps
    kinds = set()
    for s, ws, wd in ps.turns:
        lens = [mk("len", x) for x in (P, G, *ps.bases)]
        pa = axes(I, N, s, rows + lens, lambda i: cols + [mk("len", select(x, z)) for x in (P, G, *ps.bases) for z in (C(0), i)])
        if not ck.ob(k + "/all", bool(pa), "not every cell is passed exactly once", w):
            continue
        good = False
        for i, j in pa:
            m = nomine(I, s, select(select(P, i), j))
            if m is (not wd):
                good = True
                kinds.add(wd)
                if wd:
                    centre = (i, j)
                break
        ck.ob(k + "/cell", good, "a cell is passed without telling whether it holds a mine" if not wd else "the window of a cell not known to hold a mine is numbered", w)
    ck.ob(k + "/kinds", kinds == {True, False}, f"{kinds}", w)
    if True in kinds:
        ps.window(ck, k, centre, rows + [mk("len", b) for b in ps.bases], cols + [mk("len", select(b, z)) for b in ps.bases for z in (C(0), centre[0])], w)
    return ps


def laid(ck, k, p, g, numbers, safe):
    I = Interp(p, opaque=[numbers.name])
    I.split = lambda n: True
    row, col, m = (mk("init", n) for n in ("a1", "a2", "a3"))
    ex = I.analyse(g.name)
    ck.use(I, ex)
    w = wh(g)
    ck.ob(k + "/exits", len(ex) >= 1, "never returns", w)
    empty = mk("from_elem", mk("from_elem", C(0), col), row)
    for e in ex:
        t = e.val
        done = False
        if t.op == "eff" and t.args[0] == numbers.name:
            t = t.args[2][0]
            t = t.args[0] if t.op == "ref" else t
            done = True
        ps = Pass(ck, k, I, t, w)
        if not ps.ok:
            continue
        if not done and not ps.mines() and len(ps.bases) == 1 and ps.incs:
            b = next(iter(ps.bases))
            mined_pass(ck, k, I, t, [row], [col], w, lambda x: x is b)
            done = True
            ps = Pass(ck, k, I, b, w)
            if not ps.ok:
                continue
        ck.ob(k + "/from", ps.bases == {empty}, f"starts from {[show(b)[:120] for b in ps.bases]}", w)
        good = True
        for _, ws, wd in ps.turns:
            good = good and all(v is MINE for _, _, v in ws) and len(ws) <= 1
            if not done:
                after = len(ws)
                before = {len(w2) for _, _, _, w2 in ps.entry} if wd else {0}
                good = good and (wd and before <= {0, 1} and all(after + n == 1 for n in before) or not wd and after == 0)
            else:
                good = good and not wd
        good = good and all(v is MINE for _, _, _, w2 in ps.entry for _, _, v in w2) and all(b is ps.P for _, _, b, _ in ps.entry)
        ck.ob(k + "/with-numbers", good, "a mine is laid without its numbers, or numbers rise without a mine", w)
        cell = ps.mines()
        if ck.ob(k + "/one-cell", len(cell) == 1, f"mines at {len(cell)} places", w) and not done:
            ps.window(ck, k, next(iter(cell)), [row], [col], w)
        dealt(ck, k, I, ps, row, col, m, safe, w)


def a02(ck):
    ck.rule = ("Every board the mine-laying routines return starts as zeros of the asked size; the index skeleton of the laying loop (its counters, branch conditions and list positions, data left abstract) is followed turn by turn on all 225 boards up to 5x5 with every start cell: "
               "each cell outside the safe area is decided by one card of the shuffled list, each card is used once, the safe area never gets a mine, and the list holds the asked number of mines; "
               "with every mine, exactly the cells of its clipped 3x3 window that are no mines rise by one.")
    p = prog()
    numbers = fn_named(p, "utils::cal_board_numbers")
    B = mk("init", "a1")
    w = wh(numbers)
    I = Interp(p)
    I.split = lambda n: True
    ex = I.analyse(numbers.name)
    ck.use(I, ex)
    ck.ob("numbers/exits", len(ex) >= 1, "never returns", w)
    for e in ex:
        mined_pass(ck, "numbers", I, e.st.mem.get(("P", "a1"), B), [mk("len", B)], [mk("len", select(B, C(0)))], w, lambda b: b is B)
    laid(ck, "laymine", p, fn_named(p, "utils::laymine"), numbers, lambda r, c, x, y: {(x, y)})
    laid(ck, "laymine_op", p, fn_named(p, "utils::laymine_op"), numbers, lambda r, c, x, y: {(i, j) for i in range(r) for j in range(c) if abs(i - x) <= 1 and abs(j - y) <= 1})
