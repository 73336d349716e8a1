"""How many cells a chord would open, and whether a neighbour would open more."""
from props.grids import *
from turns import Setting, Turns, possible, Unknown

COVERED, FLAGGED = 10, 11


def local_calls(p, g):
    """the functions of the crate that g reaches, g left out"""
    out, todo = [], [g]
    while todo:
        f = todo.pop()
        work = [f.blocks]
        while work:
            x = work.pop()
            if isinstance(x, dict):
                if x.get("k") == "fn":
                    h = p.fns.get(x.get("resolved", x["path"])) or p.fns.get(x["path"])
                    if h and h is not g and h not in out:
                        out.append(h)
                        todo.append(h)
                work += x.values()
            elif isinstance(x, list):
                work += x
        for h in p.fns.values():
            if h.name.startswith(f.name + "::{closure") and h not in out:
                out.append(h)
                todo.append(h)
    return out


def window_count(I, t, cond, centre, rows, cols):
    """'' when t counts, from 0, the cells of the clipped window round `centre` for which cond(state, i, j) holds; else the reason why not"""
    heads = {q.args[0] for q in I.phi_in if q.args[1:] == t.args[1:] and q is not t and t in I.phi_in[q] and q in I.phi_in[t]}
    sums = [q for q in I.phi_in if add(t, q) in I.phi_in.get(t, ()) and C(0) in I.phi_in[q]]
    if not heads and len(sums) == 1:
        # row by row: the sum of the rows' counts
        G = sums[0]
        inner, outer = G.args[0], t.args[0]
        if set(I.phi_in[t]) - {t} != {C(0), add(t, G)} or set(I.phi_in[G]) - {G, add(G, C(1))} != {C(0)} or any(z in I.phi_in[t].get(t, ()) for z in arrivals(I, outer)):
            return "the count is not the sum of its rows'"
        back = [s for s in arrivals(I, inner) if at(s, G) is not None and at(s, G) in (G, add(G, C(1)))]
        carried = [q for q in I.phi_in if q.args[0] == inner]
    elif len(heads) != 1:
        return f"{show(t)[:100]} is not the outcome of one pass over the window"
    else:
        N = Nest(I, next(iter(heads)))
        if N.bad:
            return str(N.bad)
        inner, outer = N.inner, N.outer
        G = next(q for q in I.phi_in if q.args[0] == N.inner and q.args[1:] == t.args[1:])
        if N.init.get(G.args[1:]) != {C(0)}:
            return "the count does not start at 0"
        back, carried = N.back, list(N.vars.values())
    kinds = set()
    for s in back:
        js = [x for x in carried if at(s, x) is add(x, C(1))]
        js += sorted({x.args[1] for f in s.facts for x in subterms(f) if x.op == "sel" and x.args[1] not in js and the_phi(x.args[1]) in js}, key=lambda x: x.id)  # an index counted from the edge of the window
        is_ = [q for q in I.phi_in if q.args[0] == outer and add(q, C(1)) in I.phi_in[q]]
        ps = [(i, j) for j in js for i in is_ if not window_ok(I, s, i, j, centre, rows, cols(i))]
        if not ps:
            return "not every cell of the window is passed exactly once"
        why = ""
        for i, j in ps:
            c = cond(s, i, j)
            if c is None:
                why = "a cell is passed without telling whether it counts"
                continue
            why = "" if at(s, G) is (add(G, C(1)) if c else G) else f"the count becomes {show(at(s, G))[:100]} on a cell that {'counts' if c else 'does not count'}"
            if not why:
                kinds.add(c)
                break
        if why:
            return why
    return "" if kinds == {True, False} else f"only {kinds}"


def a04(ck):
    ck.rule = ("The cells a chord would open are the cells showing 10 among the cells of the clipped 3x3 window, a pass over the window that counts each of them once, answered only where the number shown is 1 to 8 and equals the count of cells showing 11, -1 otherwise; "
               "the decision compares that number at the position with that of the cells above, left, below and right that lie on the board, every combination of position and of the five numbers decided on the paths of the function.")
    p = prog()
    B, P = mk("init", "a1"), mk("init", "a2")
    X, Y = get_field(P, "0"), get_field(P, "1")
    g = fn_named(p, "utils::is_good_chording")
    w = wh(g)
    # the routine that counts: the one asked about the position itself
    board = g.ty(1)
    subs = sorted(f.name for f in local_calls(p, g) if f.argc == 2 and "{closure" not in f.name and f.ty(1) == board and f.ty(2) == g.ty(2) and f.ty(0) in ("i8", "i16", "i32", "i64", "isize"))
    if not ck.ob("counter", len(subs) == 1, f"asks {subs}", w):
        return
    I = Interp(p, opaque=subs)
    I.split = lambda n: True
    I.unroll = 8
    ex = I.analyse(g.name)
    ck.use(I, ex)
    ck.ob("exits", len(ex) >= 1, "never answers", w)
    for e in ex:
        ck.ob("pure", e.st.mem.get(("P", "a1"), B) is B, "the board changes", w)
    n = 0
    for (rs, cs) in ((1, 1), (1, 3), (3, 1), (3, 3)):
        for x in range(rs):
            for y in range(cs):
                near = [(x + a, y + b) for a, b in ((-1, 0), (0, -1), (1, 0), (0, 1)) if 0 <= x + a < rs and 0 <= y + b < cs]
                for mid in (-1, 0, 1, 2):
                    opts = [[]] + [[(q, mid + 1)] for q in near] + [[(q, mid) for q in near]]
                    for o in opts:
                        of = {(x, y): mid, **{(a, b): 7 for a in range(-1, rs + 1) for b in range(-1, cs + 1) if (a, b) != (x, y) and (a, b) not in near}, **{q: -1 for q in near}, **dict(o)}
                        want = mid > 0 and all(of[q] <= mid for q in near)
                        ev = Setting({B: [[0] * cs for _ in range(rs)], P: (x, y)}, {subs[0].split("::")[-1]: lambda b, q, of=of: of[tuple(q)]})
                        tell = f"at ({x},{y}) of {rs}x{cs} with {mid} cells to open and {[of[q] for q in near]} round it"
                        got = set()
                        for e in ex:
                            if possible(ev, e.st):
                                try:
                                    got.add(bool(ev(e.val)))
                                except Unknown as u:
                                    got.add(str(u))
                        n += 1
                        if got != {want}:
                            ck.ob("decision", False, f"{tell}: {got}, should be {want}", w)
                        else:
                            ck.ob("decision", True)
    # the count
    g = p.fns[subs[0]]
    w = wh(g)
    I = Interp(p)
    I.split = lambda n: True
    ex = I.analyse(g.name)
    ck.use(I, ex)
    ck.ob("count/exits", len(ex) >= 1, "never answers", w)
    shown = select(select(B, X), Y)
    rows, cols = [mk("len", B)], lambda i: [mk("len", select(B, i)), mk("len", select(B, C(0))), mk("len", select(B, X))]
    known_counts = {}
    for e in ex:
        ck.ob("count/pure", e.st.mem.get(("P", "a1"), B) is B, "the board changes", w)
        for t in [e.val] + list(e.st.facts):
            for q in subterms(t):
                if q.op == "phi" and q not in known_counts:
                    why = {}
                    for k in (COVERED, FLAGGED):
                        why[k] = window_count(I, q, lambda s, i, j, k=k: I.ev(s, teq(select(select(B, i), j), C(k))), (X, Y), rows, cols)
                    known_counts[q] = why
    counts = {q: k for q, ws in known_counts.items() for k, m in ws.items() if not m}
    for v in range(-3, 20):
        for covered in (0, 1, 3, 8):
            for flagged in (0, 1, 2, 8):
                ev = Setting({shown: v, **{q: covered if k == COVERED else flagged for q, k in counts.items()}})
                want = covered if 1 <= v <= 8 and v == flagged else -1
                got = set()
                for e in ex:
                    if possible(ev, e.st):
                        try:
                            got.add(ev(e.val))
                        except Unknown as u:
                            bad = [f"{show(q)[:40]}: {ws}" for q, ws in known_counts.items() if q not in counts and any(q is y for t in [e.val] + list(e.st.facts) for y in subterms(t))]
                            got.add(str(u) + " " + "; ".join(bad)[:400])
                ck.ob("count", got == {want}, f"a cell showing {v} with {covered} covered and {flagged} marked cells round it: {got}, should be {want}" + "".join(f"; {show(q)[:40]}: {ws}" for q, ws in known_counts.items() if q not in counts and not any(ws[k] == '' for k in ws) and not got == {want})[:300], w)


# ---- a grid made or changed cell by cell, judged at sample cells -------------------------------------

def cellmap(ck, k, I, t, bases, cells, want, rows, cols, w, calls=None, entry=True):
    """t is one of `bases` with every cell replaced. cells: list of (what, {cell atom builder: value}) - atoms(i, j, old) gives the terms to set;
    want(what): the value the cell has afterwards"""
    made = built(I, t)
    if made:
        steps = [(s, [(i, j) for i in is_ for j in js if not board_ok(I, s, i, j, rows + [mk("len", x) for x in bases], cols(i) + [mk("len", select(x, z)) for x in bases for z in (C(0), i)])],
                  (lambda i, j, v=v: (v, [select(select(x, i), j) for x in bases]))) for s, is_, js, v in made]
    else:
        G, N = sweep(ck, k, I, t, w)
        if G is None:
            return
        ini = N.init.get(G.args[1:])
        if entry:
            ck.ob(k + "/from", ini is not None and ini <= set(bases), f"starts as {[show(x)[:100] for x in ini or ()]}", w)
        out = N.outer_of(G.args[1:])

        def after(s):
            def f(i, j):
                b, ws = peel(at(s, G))
                old = [select(select(x, i), j) for x in (G, *bases)]
                if b is not G or any(x[0] is not i or x[1] is not j for x in ws):
                    return None, old
                return (ws[0][2] if ws else old[0]), old
            return f
        steps = [(s, axes(I, N, s, rows + [mk("len", x) for x in (G, out, *bases)], lambda i: cols(i) + [mk("len", select(x, z)) for x in (G, out, *bases) for z in (C(0), i)]), after(s)) for s in N.back]
    met = set()
    for s, ps, f in steps:
        if not ck.ob(k + "/all", bool(ps), "not every cell is passed exactly once", w):
            continue
        why = "?"
        for i, j in ps:
            v, old = f(i, j)
            why = "" if v is not None else "a cell other than the one at hand changes"
            if why:
                continue
            for n, (what, atoms) in enumerate(cells):
                ev = Setting(atoms(i, j, old), calls)
                if not possible(ev, s):
                    continue
                met.add(n)
                try:
                    got = ev(v)
                except Unknown as u:
                    why = f"a cell becomes {show(v)[:120]} ({u})"
                    break
                if not same_value(got, want(what)):
                    why = f"a cell with {what} becomes {got}, should be {want(what)}"
                    break
            if not why:
                break
        ck.ob(k + "/cell", not why, why, w)
    ck.ob(k + "/met", len(met) == len(cells), f"nothing happens at a cell with {[c[0] for n, c in enumerate(cells) if n not in met][:3]}", w)


def same_value(a, b):
    return type(a) is type(b) and a == b


class Scatter(object):
    """one turn over the list of chances: the chance goes to its cell"""
    calls = {}
    parts = {"i": lambda s, w: s["i"], "rest": lambda s, w: w["list"][s["i"]:], "grid": lambda s, w: s["grid"], "length": lambda s, w: len(w["list"])}

    def __init__(self, at_):
        self.at = at_

    def atoms(self, w):
        return {self.at: w["list"], BOARD_ARG: w["board"], mk("isv", self.src, "Ok"): True}

    def start(self, w):
        return {"i": 0, "grid": [[w["none"]] * len(w["board"][0]) for _ in w["board"]]}

    def more(self, s, w):
        return s["i"] < len(w["list"])

    def turn(self, s, w):
        (r, c), p = w["list"][s["i"]]
        g = [list(x) for x in s["grid"]]
        g[r][c] = p
        return {"i": s["i"] + 1, "grid": g}

    def tell(self, w):
        return f"the chances {w['list']}"


BOARD_ARG = mk("init", "a1")


def a05(ck):
    ck.rule = ("A failure of the probability engine, asked once about the same board and mine count, is passed on; otherwise the grid begins with one value outside 0..1 everywhere, one turn over the engine's list writes each chance to its cell, and a pass over every cell of the board settles it: "
               "shown 11 - 1, shown 10 - its chance, or the engine's chance for the rest if it got none, everything else - its chance if it got one and was shown neither 11 nor 12, else 0; the mine counts are the engine's.")
    p = prog()
    g = fn_named(p, "algorithms::cal_possibility_onboard")
    eng = fn_named(p, "algorithms::cal_possibility")
    w = wh(g)
    B, M = BOARD_ARG, mk("init", "a2")
    I = Interp(p, opaque=[eng.name])
    I.split = lambda n: True
    ex = I.analyse(g.name)
    ck.use(I, ex)
    asked = mk("call", eng.name, (mk("ref", B), M))
    ok = mk("isv", asked, "Ok")
    kinds = set()
    for e in ex:
        ck.ob("pure", e.st.mem.get(("P", "a1"), B) is B, "the board changes", w)
        on = I.ev(e.st, ok)
        if not ck.ob("asked", on is not None, "answers without having asked the engine about this board and mine count", w):
            continue
        kinds.add(on)
        v = e.val
        if not on:
            ck.ob("failure", v.op == "S" and v.args[1] == "Err" and I.deep(e.st, get_field(v, "Err.0")) is get_field(asked, "Err.0"), f"a failure becomes {show(v)[:120]}", w)
            continue
        if not ck.ob("success", v.op == "S" and v.args[1] == "Ok", f"a success becomes {show(v)[:120]}", w):
            continue
        res, got = I.deep(e.st, get_field(v, "Ok.0")), get_field(asked, "Ok.0")
        lst, rest = get_field(got, "0"), get_field(got, "1")
        ck.ob("counts", get_field(res, "1") is get_field(got, "2"), f"the mine counts are {show(get_field(res, '1'))[:120]}", w)
        grid = get_field(res, "0")
        # the list
        lists = {q for q in I.phi_in if q.op == "phi" and any(t.op == "from_elem" for t in I.phi_in[q])}
        if not ck.ob("scatter/one", len(lists) == 1, f"{len(lists)} grids are begun", w):
            continue
        P0 = lists.pop()
        none = [t for t in I.phi_in[P0] if t.op == "from_elem"]
        base = none[0].args[0].args[0] if len(none) == 1 and none[0].args[0].op == "from_elem" else None
        if not ck.ob("scatter/begin", base is not None and base.op == "c" and isinstance(base.args[0], float) and not 0 <= base.args[0] <= 1, f"begins as {[show(t)[:100] for t in none]}", w):
            continue
        none = base.args[0]
        spec = Scatter(lst)
        spec.src = asked
        t = Turns(I, P0.args[0], spec)
        worlds = [{"list": [((1, 0), 0.25), ((0, 2), 0.5)], "board": [[10] * 3] * 2, "none": none}, {"list": [], "board": [[10] * 3] * 2, "none": none}, {"list": [((4, 1), 0.0)], "board": [[10] * 2] * 5, "none": none}]
        samples = []
        for x in worlds:
            s = spec.start(x)
            while spec.more(s, x):
                samples.append((s, x))
                s = spec.turn(s, x)
            samples.append((s, x))
        roles, msg = t.match(worlds, samples)
        if not ck.ob("scatter", roles is not None, msg or "", w):
            continue
        # the cells
        rows, cols = [mk("len", B), mk("len", P0)], lambda i: [mk("len", select(x, z)) for x in (B, P0) for z in (C(0), i)]
        cells = []
        for shown in range(-2, 21):
            for chance in (none, 0.0, 0.25, 0.75, 1.0):
                cells.append((f"{shown} shown and chance {chance}", lambda i, j, old, shown=shown, chance=chance: {select(select(B, i), j): shown, rest: 0.4375, ok: True, **{o: chance for o in old}}))
        table = {f"{shown} shown and chance {chance}": 1.0 if shown == 11 else 0.0 if shown == 12 else (0.4375 if shown == 10 else 0.0) if chance == none else chance
                 for shown in range(-2, 21) for chance in (none, 0.0, 0.25, 0.75, 1.0)}
        cellmap(ck, "cells", I, grid, [P0], cells, lambda what: table[what], rows, cols, w)
    ck.ob("both", kinds == {True, False}, f"{kinds}", w)
