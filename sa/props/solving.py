"""How the solving routines put the three deduction engines together."""
from props.chording import *
import itertools
from turns import Variant

ENGINES = ("solve_direct", "solve_minus", "solve_enumerate")


class Wrong(Exception):
    pass


def engines(w, log=None):
    """stand-ins for the engines and the matrices: each accepts only what it should be given and answers what the case says"""
    mats = lambda n: [("A", n), ("x", n), ("b", n)]

    def need(what, got, want):
        if list(got) != list(want):
            raise Unknown(f"{what} is given {str(got)[:120]}, not {str(want)[:120]}")

    def whole(board):
        if w.get("board0") is not None and board != w["board0"]:
            raise Unknown(f"the matrices are made of {str(board)[:100]}, not of {str(w['board0'])[:100]}")
        return mats(0) + [0, 0]

    def blocks(board):
        if board != w["board0"]:
            raise Unknown(f"the matrices are made of {str(board)[:100]}, not of {str(w['board0'])[:100]}")
        k, n = w["block"], w["blocks"]
        return ([("A", 0) if t == k else ("other", t) for t in range(n)], w["xses"], [("b", 0) if t == k else ("other", t) for t in range(n)])

    def given(nm, n, a):
        m = mats(n)
        if w.get("blocks") and n == 0:
            m[1] = w["xses"][w["block"]]
        need(nm, a[:3], m)
        if len(a) > 3:
            need(nm, [a[3]], [w[f"board{n}"]])

    def engine(nm, n):
        def f(*a):
            given(nm, n, a)
            return w[nm]
        return f

    def changed(nm, n, k):
        def f(*a):
            given(nm, n, a)
            return w[f"board{n + 1}"] if k == 3 else mats(n + 1)[k]
        return f
    out = {"refresh_matrixs": whole, "refresh_matrixses": blocks, "find_a_border_cell": lambda b, q: w["border"] if (b, q) == (w["board0"], w["xy"]) else 1 / 0}
    for n, nm in enumerate(ENGINES):
        out[nm] = engine(nm, n)
        if n < 2:
            out.update({f"&{nm}/{k}": changed(nm, n, k) for k in range(4)})
    return out


def judge(ck, k, ex, cases, atoms, result, w):
    """every case: exactly the expected result on every path that can be taken in it"""
    for c in cases:
        ev = Setting(atoms(c), engines(c))
        outs = [e for e in ex if possible(ev, e.st)]
        if not ck.ob(k + "/some", bool(outs), f"no answer for {c['what']}", w):
            return
        for e in outs:
            got = []
            for t in result[0](e):
                try:
                    got.append(ev(t))
                except Unknown as u:
                    got.append(f"{show(t)[:80]} ({u})"[:400])
            want = result[1](c)
            if not ck.ob(k, [norm(x) for x in got] == [norm(x) for x in want], f"{c['what']}: {str(got)[:300]}, should be {str(want)[:200]}", w):
                return


def norm(x):
    return [norm(y) for y in x] if isinstance(x, (list, tuple)) else x


def cleaned(ck, k, I, ex, B, w):
    """the grids that are the given board with everything above 10 covered again"""
    out = {}
    for e in ex:
        for t in [e.val] + list(e.st.facts) + [x for x in e.st.mem.values() if x is not None]:
            for q in subterms(t):
                if q.op == "phi" and q in I.phi_in and q not in out and any(x is B or (x.op == "store") for x in I.phi_in[q]):
                    out[q] = None
    tops = [q for q in out if q.args[0] not in {x.args[0] for x in I.phi_in if any(y in I.phi_in[x] and x in I.phi_in.get(y, ()) and x.args[0] > y.args[0] for y in I.phi_in[x] if y.op == "phi")}] or list(out)
    n = 0
    for q in tops:
        rows, cols = [mk("len", B)], lambda i: [mk("len", select(B, z)) for z in (C(0), i)]
        cells = [(v, lambda i, j, old, v=v: {o: v for o in old}) for v in range(-2, 20)]
        cellmap(ck, k, I, q, [B], cells, lambda v: min(v, 10), rows, cols, w)
        n += 1
    ck.ob(k + "/seen", n >= 1, "marks are never taken back", w)
    return tops


def a06(ck):
    ck.rule = ("Each routine's paths are judged on every combination of the engines' answers: the engines are called on the matrices of the right board, each on what the one before it left, and the routine's answer is the specified function of their answers; scans that accept (a won board, consistent matrices) leave early only at a cell that refutes, pass every cell, and go on only where the cell does not refute.")
    p = prog()
    f = {n: fn_named(p, "algorithms::" + n).name for n in ENGINES}
    f["refresh_matrixs"], f["refresh_matrixses"], f["find_a_border_cell"] = (fn_named(p, "utils::" + n).name for n in ("refresh_matrixs", "refresh_matrixses", "find_a_border_cell"))
    opq = list(f.values())
    every_mine(ck, p, opq)
    able(ck, p, opq)
    needless(ck, p, opq)
    solvable(ck, p, opq)
    marking(ck, p, opq)


def every_mine(ck, p, opq):
    g = fn_named(p, "algorithms::get_all_not_and_is_mine_on_board")
    I = Interp(p, opaque=opq)
    ex = I.analyse(g.name)
    ck.use(I, ex)
    w = wh(g)
    a = [mk("init", f"a{n}") for n in (1, 2, 3, 4)]
    c = {"what": "all engines answering", "board0": [[0]], "board1": [[1]], "board2": [[2]], **{nm: Variant("Ok", ([(n, 0), (n, 1)], [(n, 5)])) for n, nm in enumerate(ENGINES)}}
    c["solve_enumerate"] = ([(2, 0), (2, 1)], [(2, 5)])
    judge(ck, "all", ex, [c], lambda c: dict(zip(a, [("A", 0), ("x", 0), ("b", 0), c["board0"]])),
          (lambda e: [e.val] + [e.st.mem.get(("P", f"a{n}")) for n in (1, 2, 3, 4)],
           lambda c: [([(0, 0), (0, 1), (1, 0), (1, 1), (2, 0), (2, 1)], [(0, 5), (1, 5), (2, 5)]), ("A", 2), ("x", 2), ("b", 2), c["board2"]]), w)


def cell_at(b, q, v):
    b = [list(r) for r in b]
    b[q[0]][q[1]] = v
    return b


def able(ck, p, opq):
    g = fn_named(p, "algorithms::is_able_to_solve")
    w = wh(g)
    B, Q = mk("init", "a1"), mk("init", "a2")
    I = Interp(p, opaque=opq)
    I.split = lambda n: True
    ex = I.analyse(g.name)
    ck.use(I, ex)
    tops = cleaned(ck, "able/cleaned", I, ex, B, w)
    xy = (1, 2)
    cases = []
    raw = [[11, 3, 12, 10], [0, 10, 14, 11]]
    b0 = [[min(v, 10) for v in r] for r in raw]
    for one in (10, 11, 12):
        for two in (10, 11, 12):
            for n in ([], [xy], [(0, 0)]):
                for i in ([], [xy], [(0, 0)]):
                    for good in ("Ok", "Err"):
                        r = Variant(good, ([], []))
                        cases.append({"what": f"the cell is {one} after the first engine, {two} after the second, safe by the third: {n}, mine: {i}; engines say {good}", "xy": xy, "board0": b0,
                                      "board1": cell_at(cell_at(b0, xy, one), (0, 0), 11), "board2": cell_at(cell_at(b0, xy, two), (0, 0), 12), "solve_direct": r, "solve_minus": r, "solve_enumerate": (n, i),
                                      "yes": one > 10 or two > 10 or xy in n or xy in i, "end": one > 10 and 1 or 2})
    judge(ck, "able", ex, cases, lambda c: {B: raw, Q: c["xy"], **{q: b0 for q in tops}}, (lambda e: [e.val, e.st.mem.get(("P", "a1"))], lambda c: [c["yes"], c[f"board{c['end']}"]]), w)


def needless(ck, p, opq):
    g = fn_named(p, "algorithms::is_guess_while_needless")
    w = wh(g)
    B, Q = mk("init", "a1"), mk("init", "a2")
    I = Interp(p, opaque=opq)
    I.split = lambda n: True
    ex = I.analyse(g.name)
    ck.use(I, ex)
    tops = cleaned(ck, "guess/cleaned", I, ex, B, w)
    idx = {q for e in ex for t in e.st.facts for q in subterms(t) if q.op == "phi" and q not in tops and any(mentions(x, lambda y: y is q) for x in I.phi_in.get(q, ())) and any(x.op == "contains" and mentions(x, lambda y: y is q) for x in e.st.facts)}
    for q in idx:
        ck.ob("guess/blocks", set(I.phi_in[q]) == {C(0), add(q, C(1))}, f"the search for the block goes by {[show(x)[:60] for x in I.phi_in[q]]}", w)
        for s in I.phi_in[q].get(add(q, C(1)), ()):
            ck.ob("guess/block-skipped", not any(v and t.op == "contains" and mentions(t, lambda y: y is q) for t, v in s.facts.items()), "the search passes over a block that has the cell", w)
    raw = [[11, 3, 12, 10], [0, 10, 14, 11]]
    b0 = [[min(v, 10) for v in r] for r in raw]
    xy, at2 = (1, 2), (0, 3)
    xses = [[[(9, 9)], [(9, 8)]], [[(7, 7)], [at2, (8, 8)]]]
    base = {"xy": xy, "board0": b0, "blocks": 2, "block": 1, "xses": xses}
    ok = lambda n: Variant("Ok", ([(5, 5)] if n else [], []))
    cases = [dict(base, what="no border cell", border=(Variant("None"), b), want=2, end=0) for b in (True, False)]
    cases.append(dict(base, what="an opened cell", xy=(0, 1), border=(Variant("None"), True), want=5, end=0))
    cases.append(dict(base, what="an opened cell", xy=(1, 0), border=(Variant("Some", at2), False), want=5, end=0))

    for fb, n1, n2, one, two in itertools.product((True, False), (0, 1), (0, 1), (10, 11, 12), (10, 11, 12)):
        for n3, i3 in itertools.product(([], [at2], [(5, 5)]), ([], [at2], [(5, 5)], [xy])):
            if not fb and n1:
                want, end = 3, 1
            elif one != 10:
                want, end = (1 if one == 12 else 4), 1
            elif not fb and n2:
                want, end = 3, 2
            elif two != 10:
                want, end = (1 if two == 12 else 4), 2
            elif not fb and n3:
                want, end = 3, 2
            elif at2 in n3:
                want, end = 1, 2
            elif at2 in i3:
                want, end = 4, 2
            else:
                want, end = (2 if not n1 and not n2 and not n3 else 3), 2
            cases.append(dict(base, what=f"border cell: {fb}; safe cells found: {n1}, {n2}, {n3}; the cell is {one}, then {two}; mines by enumeration {i3}", border=(Variant("Some", at2), fb),
                              board1=cell_at(b0, at2, one), board2=cell_at(b0, at2, two), solve_direct=ok(n1), solve_minus=ok(n2), solve_enumerate=(n3, i3), want=want, end=end))

    # where the search has stopped: at the block and row that hold the cell
    def atoms(c):
        out = {B: raw, Q: c["xy"], **{q: b0 for q in tops}}
        for q in idx:
            out[q] = 1
        return out
    judge(ck, "guess", ex, cases, atoms, (lambda e: [e.val, e.st.mem.get(("P", "a1"))], lambda c: [c["want"], c[f"board{c['end']}"]]), w)


# ---- solvable from a start -------------------------------------------------------------------------

class Marks:
    """one turn over the mines found by enumeration: the cell is marked"""
    parts = {"i": lambda s, w: s["i"], "rest": lambda s, w: w["solve_enumerate"][1][s["i"]:], "grid": lambda s, w: s["grid"], "length": lambda s, w: len(w["solve_enumerate"][1])}

    def __init__(self, atoms):
        self.atoms = atoms

    def start(self, w):
        return {"i": 0, "grid": w["board2"]}

    def more(self, s, w):
        return s["i"] < len(w["solve_enumerate"][1])

    def turn(self, s, w):
        return {"i": s["i"] + 1, "grid": cell_at(s["grid"], w["solve_enumerate"][1][s["i"]], 11)}

    def tell(self, w):
        return w["what"]


def opened(board, bg, cells):
    return ("opened", norm(bg), norm(cells))


def solvable(ck, p, opq):
    g = fn_named(p, "algorithms::is_solvable")
    w = wh(g)
    B, X, Y = mk("init", "a1"), mk("init", "a2"), mk("init", "a3")
    won = [f for f in local_calls(p, g) if f.argc == 2 and f.ty(1) == g.ty(1) and f.ty(2) == g.ty(1) and f.ty(0) == "bool"]
    if not ck.ob("solvable/won", len(won) == 1, f"asks {[f.name for f in won]} whether the board is won", w):
        return
    won = won[0]
    names = [fn_named(p, "utils::" + n).name for n in ("unsolvable_structure", "refresh_board")]
    I = Interp(p, opaque=opq + names + [won.name])
    I.split = lambda n: True
    ex = I.analyse(g.name)
    ck.use(I, ex)
    board = [[0, 1, -1, 1], [0, 1, 1, 1], [0, 0, 0, 0]]
    b0 = [[0, 1, 10, 10], [0, 1, 10, 10], [0, 0, 0, 0]]
    covered = [[10] * 4 for _ in board]
    first = opened(board, covered, [(2, 1)])

    def calls(c):
        out = engines(c)

        def open_(b, bg, cells):
            if b != board:
                raise Unknown("another board is opened")
            return opened(b, bg, cells)

        def is_won(bg, b):
            if b != board:
                raise Unknown("won by another board")
            bg = norm(bg)
            if bg == norm(first):
                return c["first"]
            if bg == norm(c.get("board0")):
                return False
            if c.get("next") is not None and bg == norm(c["next"]):
                return c["won"]
            raise Unknown(f"won on {str(bg)[:160]}")
        out.update({"unsolvable_structure": lambda b: c["bad"] if b == board else 1 / 0, "&refresh_board/1": open_, won.name.split("::")[-1]: is_won})
        return out
    heads = {q.args[0] for q in I.phi_in}
    inner = {h for h in heads if all(any(x is at_ or mentions(x, lambda y: y.op == "phi" and y.args[0] == h) for x in I.phi_in[at_]) for at_ in I.phi_in if at_.args[0] == h)}
    outer = {q for q in I.phi_in if any(mentions(x, lambda y: y.op == "eff" and y.args[0] == names[1]) for x in I.phi_in[q])}
    if not ck.ob("solvable/loop", len(outer) == 1, f"{len(outer)} boards are carried from turn to turn", w):
        return
    G = outer.pop()
    late = lambda s: any(mentions(f, lambda y: y is G) for f in s.facts)
    start = {B: board, X: 2, Y: 1}
    def follow(ev, c, mine, atoms, blocked=lambda e: False):
        """(answers, boards the loop goes on with) on the paths that are possible; a board it goes on with that is then found won is an answer"""
        got, nxt = set(), []
        for e in ex:
            if mine(e.st) and not blocked(e.st) and possible(ev, e.st):
                try:
                    got.add(ev(e.val))
                except Unknown as u:
                    got.add(str(u))
        for s in arrivals(I, G.args[0]):
            if mine(s) and not blocked(s) and possible(ev, s):
                v = at(s, G)
                try:
                    x = norm(ev(v))
                except Unknown as u:
                    x = f"{show(v)[:120]} ({u})"
                ev2 = Setting({**start, **atoms, G: x}, calls(c))
                outs = [e for e in ex if late(e.st) and not blocked(e.st) and possible(ev2, e.st)]
                if outs and not any(late(r) and possible(ev2, r) for r in arrivals(I, G.args[0])):
                    for e in outs:
                        try:
                            got.add((ev2(e.val), str(x)))
                        except Unknown as u:
                            got.add(str(u))
                else:
                    nxt.append(x)
        return got, nxt

    def right(got, nxt, want, board):
        """exactly the answer wanted (None: goes on with the board)"""
        if want is None:
            return not got and bool(nxt) and all(x == norm(board) for x in nxt)
        return bool(got) and not nxt and all(x is want or x == (want, str(norm(board))) for x in got)
    # before the loop
    for bad in (True, False):
        for f1 in (True, False):
            c = {"bad": bad, "first": f1, "board0": b0, "what": f"structure: {bad}, won at once: {f1}"}
            got, nxt = follow(Setting(start, calls(c)), c, lambda s: not late(s), {})
            ck.ob("solvable/start", right(got, nxt, False if bad else True if f1 else None, first), f"{c['what']}: answers {str(got)[:200]}, goes on with {str(nxt)[:200]}", w)
    # one turn
    cases = []
    R = lambda n, i: Variant("Ok", ([(0, n)] if n else [], [(1, i)] if i else []))
    n = 0
    for n1, i1, n2, i2, n3, i3 in itertools.product((0, 1), (0, 2), (0, 3), (0, 1), (0, 2), (0, 1, 2)):
        for w1 in (True, False):
            b1, b2 = cell_at(b0, (1, 1), 12), cell_at(cell_at(b0, (1, 1), 12), (0, 1), 11)
            mines = [(0, 2), (1, 3)][:i3]
            if n1 or i1:
                nxt = opened(board, b1, [(0, 1)] if n1 else [])
            elif n2 or i2:
                nxt = opened(board, b2, [(0, 3)] if n2 else [])
            elif n3 or mines:
                m = b2
                for q in mines:
                    m = cell_at(m, q, 11)
                nxt = opened(board, m, [(0, 2)] if n3 else [])
            else:
                nxt = None
            cases.append({"bad": False, "first": False, "won": w1, "next": nxt, "board0": b0, "board1": b1, "board2": b2, "solve_direct": R(n1, i1), "solve_minus": R(n2, i2), "solve_enumerate": ([(0, 2)] if n3 else [], mines),
                          "what": f"safe cells and mines found: {n1},{i1} directly, {n2},{i2} by differences, {n3},{len(mines)} by enumeration; won: {w1}"})
    sub = {h for h in heads if h != G.args[0]}
    done, entries = {}, {}
    if not ck.ob("solvable/marking", len(sub) == 1, f"{len(sub)} loops mark the mines", w):
        return
    for h in sub:
        base = lambda c: {**start, G: c["board0"]}
        spec = Marks(base)
        worlds = [c for c in cases if c["next"] and not any(c["solve_direct"]["Ok.0"]) and not any(c["solve_minus"]["Ok.0"])]
        spec.calls = None
        t = Turns(I, h, spec)
        roles = msg = None
        for c in worlds:
            spec.calls = calls(c)
            samples = []
            s = spec.start(c)
            while spec.more(s, c):
                samples.append((s, c))
                s = spec.turn(s, c)
            samples.append((s, c))
            # passed by altogether when there is nothing to mark
            if not c["solve_enumerate"][1] and not [x for x in t.entry if possible(Setting(base(c), spec.calls), x)]:
                continue
            roles, msg = t.match([c], samples)
            if not ck.ob("solvable/marks", roles is not None, f"{c['what']}: {msg}", w):
                return
        done[h] = (t.phis, roles)
        entries[h] = t
    for c in cases:
        mines = c["solve_enumerate"][1]
        m = c["board2"]
        for q in mines:
            m = cell_at(m, q, 11)
        end = {"i": len(mines), "grid": m}
        at_ = {q: Marks.parts[r](end, c) for ps, roles in done.values() for q, r in zip(ps, roles)}
        ev = Setting({**start, G: c["board0"], **at_}, calls(c))
        # the marking loop is not come to at all
        closed = [h for h, t in entries.items() if not any(possible(Setting({**start, G: c["board0"]}, calls(c)), x) for x in t.entry)]
        blocked = lambda s: any(f.op != "c" and mentions(f, lambda y: y.op == "phi" and y.args[0] in closed) for f in s.facts)
        got, nxt = follow(ev, c, late, at_, blocked)
        want = False if c["next"] is None else True if c["won"] else None
        if not ck.ob("solvable/turn", right(got, nxt, want, c["next"]), f"{c['what']}: answers {str(got)[:200]}, goes on with {str(nxt)[:200]}, should answer {want}", w):
            return
    won_board(ck, p, won)


def won_board(ck, p, g):
    """true exactly when every covered cell is a mine"""
    w = wh(g)
    G, B = mk("init", "a1"), mk("init", "a2")
    I = Interp(p)
    I.split = lambda n: True
    ex = I.analyse(g.name)
    ck.use(I, ex)
    cell = lambda x, i, j: select(select(x, i), j)
    rows = [mk("len", x) for x in (G, B)]
    cols = lambda i: [mk("len", select(x, z)) for x in (G, B) for z in (C(0), i)]

    def wrong(s, i, j):
        """does the path know that the cell is covered and no mine?"""
        a, b = I.ev(s, teq(cell(G, i, j), C(10))), I.ev(s, teq(cell(B, i, j), C(-1)))
        return True if a and b is False else False if a is False or b else None
    scan(ck, "won", I, ex, wrong, rows, cols, lambda e: e.val is FALSE, lambda e: e.val is TRUE, [G, B], w)


def scan(ck, k, I, ex, wrong, rows, cols, refused, accepted, grids, w):
    """accepted exactly when wrong(state, i, j) holds for no cell"""
    inner, outer = set(), set()

    def pairs(s):
        out = []
        for t in list(s.facts):
            for x in subterms(t):
                if x.op == "sel" and x.args[0].op == "sel" and x.args[0].args[0] in grids:
                    i, j = x.args[0].args[1], x.args[1]
                    if (i, j) not in out and the_phi(i) is not None and the_phi(j) is not None:
                        out.append((i, j))
        return out
    seen = set()
    for e in ex:
        ps = pairs(e.st)
        bad = [(i, j) for i, j in ps if wrong(e.st, i, j) is True]
        if refused(e):
            seen.add(False)
            ok = [1 for i, j in bad if not board_ok(I, e.st, i, j, rows, cols(i), lambda s: any(wrong(s, a, b) is True for a, b in pairs(s)))]
            ck.ob(k + "/refused", bool(ok), "refused without a cell that is wrong, or not every cell is looked at", w)
            inner |= {the_phi(j).args[0] for i, j in bad}
            outer |= {the_phi(i) for i, j in bad}
        elif accepted(e):
            seen.add(True)
            ck.ob(k + "/accepted", not bad, "accepted on a cell that is wrong", w)
        else:
            ck.fail(k + "/answer", f"answers {show(e.val)[:100]}", w)
    for e in ex:
        if not refused(e) and accepted(e):
            ck.ob(k + "/to-the-end", any(I.ev(e.st, tlt(i, d)) is False for i in outer for d in rows), "accepted before every cell was looked at", w)
    ck.ob(k + "/both", seen == {True, False}, f"{seen}", w)
    for h in inner:
        for s in arrivals(I, h):
            js = [q for q in I.phi_in if q.args[0] == h and at(s, q) is add(q, C(1))]
            if not js:
                continue
            ck.ob(k + "/passed", any(wrong(s, i, j) is False for i, j in pairs(s) if the_phi(j) in js), "a cell is passed that may be wrong", w)
    ck.ob(k + "/looked", bool(inner), "no cell is looked at", w)


# ---- marking -----------------------------------------------------------------------------------------

def row_sums(I, A):
    """{(i, j): [the loop variables that hold the sum of A[i][j]]}"""
    out = {}
    for q in I.phi_in:
        adds = {}
        for t in I.phi_in[q]:
            c, d = lin_parts(t)
            if t is C(0):
                continue
            rest = [x for x, n in d.items() if x is not q and n == 1]
            if c or d.get(q) != 1 or len(d) != 2 or len(rest) != 1:
                break
            b, ix = index_chain(rest[0])
            if b is not A or len(ix) != 3:
                break
            adds[tuple(ix)] = I.phi_in[q][t]
        else:
            if C(0) in I.phi_in[q] and len(adds) == 1:
                (i, j, n), sts = next(iter(adds.items()))
                if n.op == "phi" and n.args[0] == q.args[0] and all(not full_axis(I, s, n, [mk("len", select(select(A, i), j))]) for s in sts) and all(at(s, q) is not q for s in arrivals(I, q.args[0])):
                    out.setdefault((i, j), []).append(q)
    return out


def marking(ck, p, opq):
    g = fn_named(p, "algorithms::mark_board")
    w = wh(g)
    B = mk("init", "a1")
    I = Interp(p, opaque=opq)
    I.split = lambda n: True
    ex = I.analyse(g.name)
    ck.use(I, ex)
    nm = {n: fn_named(p, "algorithms::" + n).name for n in ENGINES}
    m = mk("call", fn_named(p, "utils::refresh_matrixs").name, (mk("ref", B),))
    a0 = tuple(mk("ref", x) for x in (get_field(m, "0"), get_field(m, "1"), get_field(m, "2"), B))
    e1 = [mk("eff", nm["solve_direct"], n, a0) for n in range(4)]
    a1 = tuple(mk("ref", x) for x in e1)
    e2 = [mk("eff", nm["solve_minus"], n, a1) for n in range(4)]
    asked = mk("isv", mk("call", nm["solve_direct"], a0), "Ok")
    code = lambda e: get_field(e.val, "Err.0") if e.val.op == "S" and e.val.args[1] == "Err" else None
    kinds = {}
    for e in ex:
        on = I.ev(e.st, asked)
        if not ck.ob("marking/asked", on is not None, "the first engine is not asked about the matrices of the board", w):
            continue
        c = code(e)
        board = e.st.mem.get(("P", "a1"), B)
        if not on:
            kinds.setdefault("failed", []).append(e)
            ck.ob("marking/failed", c is get_field(mk("call", nm["solve_direct"], a0), "Err.0") and board is e1[3], f"a failure of the first engine becomes {show(e.val)[:100]}", w)
        elif c is not None:
            k = c.args[0] if is_int(c) else None
            kinds.setdefault(k, []).append(e)
            ck.ob("marking/code", k in (7, 8) and board is (e1 if k == 7 else e2)[3], f"fails with {show(c)[:60]}, the board being {show(board)[:80]}", w)
        else:
            kinds.setdefault("done", []).append(e)
            ck.ob("marking/done", e.val.op == "S" and e.val.args[1] == "Ok" and board is e2[3], f"ends with {show(e.val)[:60]}, the board being {show(board)[:80]}", w)
    ck.ob("marking/kinds", set(kinds) == {"failed", 7, 8, "done"}, f"{sorted(map(str, kinds))}", w)
    for n, (eff, own, later) in enumerate(((e1, 7, (8, "done")), (e2, 8, ("done",)))):
        A, b = eff[0], eff[2]
        sums = row_sums(I, A)

        def wrong(s, i, j, b=b, sums=sums):
            c = select(select(b, i), j)
            neg = I.ev(s, tlt(c, C(0)))
            few = [I.ev(s, tlt(q, c)) for q in sums.get((i, j), ())]
            return True if neg or True in few else False if neg is False and False in few else None
        rows = [mk("len", x) for x in (A, b)]
        cols = lambda i, A=A, b=b: [mk("len", select(x, i)) for x in (A, b)]
        mine = [e for k in (own,) + later for e in kinds.get(k, [])]
        scan(ck, f"marking/{own}", I, mine, wrong, rows, cols, lambda e, own=own: e in kinds.get(own, []), lambda e, later=later: any(e in kinds.get(k, []) for k in later), [b], w)
