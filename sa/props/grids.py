"""Sweeps over boards: what a routine does at every cell, and what it knows about a cell's neighbours."""
from props.boards import *
from scans import *

KEEP = object()


def axes(I, N, s, rows, cols):
    """(row, column) loop variables of a one-cell step that run over the whole board"""
    out = []
    js = [x for x in N.vars.values() if at(s, x) is add(x, C(1))]
    is_ = [q for q in I.phi_in if q.args[0] == N.outer and add(q, C(1)) in I.phi_in[q]]
    for j in js:
        for i in is_:
            if not board_ok(I, s, i, j, rows, cols(i)):
                out.append((i, j))
    return out


def sweep(ck, k, I, t, w):
    """the cell loop that carries the container t; None when there is none"""
    heads = {}
    for q in I.phi_in:
        if t.op == "phi" and q.args[1:] == t.args[1:] and q is not t and t in I.phi_in[q] and q in I.phi_in[t]:
            heads[q] = 1
    if not ck.ob(k + "/sweep", len(heads) == 1, f"is {show(t)[:200]}, not the outcome of one pass over the board", w):
        return None, None
    G = list(heads)[0]
    N = Nest(I, G.args[0])
    if not ck.ob(k + "/loops", not N.bad, str(N.bad), w):
        return None, None
    return G, N


def gridmap(ck, k, I, t, bases, rule, rows, cols, w):
    """t is one of `bases` with every cell (i, j) replaced by rule(state, i, j, cell): KEEP, a value, or None when the path does not tell.
    cell(f) is the truth of f(cell) for the value the cell has before."""
    made = built(I, t)
    if made:
        kinds = set()
        for s, is_, js, v in made:
            why = "not every cell is passed exactly once"
            for i, j in [(i, j) for i in is_ for j in js]:
                if board_ok(I, s, i, j, rows + [mk("len", x) for x in bases], cols(i) + [mk("len", select(x, z)) for x in bases for z in (C(0), i)]):
                    continue
                srcs = [select(select(x, i), j) for x in bases]
                e = rule(s, i, j, lambda f: next((r for r in (I.ev(s, f(x)) for x in srcs) if r is not None), None))
                if e is None:
                    why = "a cell is made without telling what it becomes: " + "; ".join(("" if b else "not ") + show(f)[:80] for f, b in list(s.facts.items())[-4:])
                elif v in srcs if e is KEEP else v is e or same(I, s, v, e) or v in srcs and I.ev(s, teq(v, e)) is True:
                    why = ""
                    kinds.add("keep" if e is KEEP else e)
                    break
                else:
                    why = f"a cell that should {'stay' if e is KEEP else 'become ' + show(e)} becomes {show(v)[:150]}"
            ck.ob(k + "/cell", not why, why, w)
        return kinds
    G, N = sweep(ck, k, I, t, w)
    if G is None:
        return None
    ini = N.init.get(G.args[1:])
    ck.ob(k + "/from", ini is not None and ini <= set(bases), f"starts as {[show(x)[:100] for x in ini or ()]}", w)
    kinds = set()
    out = N.outer_of(G.args[1:])
    for s in N.back:
        v = at(s, G)
        ps = axes(I, N, s, rows + [mk("len", x) for x in (G, out, *bases)], lambda i: cols(i) + [mk("len", select(x, z)) for x in (G, out, *bases) for z in (C(0), i)])
        if not ck.ob(k + "/all", bool(ps), "not every cell is passed exactly once", w):
            continue
        why = "?"
        for i, j in ps:
            srcs = [select(select(x, i), j) for x in (G, *bases)]

            def cell(f):
                for x in srcs:
                    r = I.ev(s, f(x))
                    if r is not None:
                        return r
                return None
            e = rule(s, i, j, cell)
            if e is None:
                why = "a cell is passed without telling what it becomes: " + "; ".join(("" if b else "not ") + show(f)[:80] for f, b in list(s.facts.items())[-4:])
                continue
            b, ws = peel(v)
            if e is KEEP:
                if v is G:
                    why = ""
                else:
                    why = f"a cell that stays becomes {show(v)[:150]}"
            elif b is G and len(ws) == 1 and ws[0][0] is i and ws[0][1] is j and (ws[0][2] is e or same(I, s, ws[0][2], e)):
                why = ""
            elif v is G and cell(lambda c: teq(c, e)) is True:
                why = ""
            else:
                why = f"the cell should become {show(e)}, the board becomes {show(v)[:150]}"
            if not why:
                kinds.add("keep" if e is KEEP else e)
                break
        ck.ob(k + "/cell", not why, why, w)
    return kinds


def count_cells(ck, k, I, t, s0, cond, rows, cols, w, head=None):
    """t counts, starting from 0, the cells (i, j) for which cond(state, i, j, outside) holds"""
    fam = Family(I, t) if t.op == "phi" else None
    if not ck.ob(k, fam is not None and fam.init_terms() == {C(0)}, f"is {show(t)[:150]}, not a count from 0", w):
        return
    G, N = sweep(ck, k, I, t, w)
    if G is None:
        return
    ck.ob(k + "/from", N.init.get(G.args[1:]) == {C(0)}, "the count does not start at 0 once", w)
    kinds = set()
    for s in N.back:
        v = at(s, G)
        ps = axes(I, N, s, rows, cols)
        if not ck.ob(k + "/all", bool(ps), "not every cell is passed exactly once", w):
            continue
        why = "?"
        for i, j in ps:
            c = cond(s, i, j, (N.inner, N.outer))
            if c is None:
                why = "a cell is passed without telling whether it counts: " + "; ".join(("" if b else "not ") + show(f)[:80] for f, b in list(s.facts.items())[-4:])
                continue
            why = "" if v is (add(G, C(1)) if c else G) else f"the count becomes {show(v)[:100]} on a cell that {'counts' if c else 'does not count'}"
            if not why:
                kinds.add(c)
                break
        ck.ob(k + "/cell", not why, why, w)
    ck.ob(k + "/kinds", kinds == {True, False}, f"{kinds}", w)


def board_dims(b):
    """(rows, columns) of a board argument, as far as the code may name them"""
    rows = [mk("call", BS + "get_row", (mk("ref", b),)), mk("len", b)]
    cols = [mk("call", BS + "get_column", (mk("ref", b),)), mk("len", select(b, C(0)))]
    return rows, (lambda i: cols + [mk("len", select(b, i))])


BS = "ms_toollib::safe_board::BoardSize::"


def v17(ck):
    ck.rule = "Both end-of-game displays are a pass over every cell of the visible board made exactly in the won (lost) state: won, covered cells become marked mines; lost, covered mines are shown; every other cell and field stays."
    p = prog()
    MBD = get_field(SELF, "minesweeper_board")
    GB, BD = get_field(MBD, "game_board"), get_field(MBD, "board")
    ST = get_field(MBD, "game_board_state")
    for nm, state in (("win_then_flag_all_mine", "Win"), ("loss_then_open_all_mine", "Loss")):
        g = fn_named(p, nm)
        I = Interp(p)
        I.split = lambda n: True
        ex = I.analyse(g.name)
        ck.use(I, ex)
        w = wh(g)
        kinds = set()
        for e in ex:
            on = I.ev(e.st, mk("isv", ST, state))
            if not ck.ob(nm + "/when", on is not None, "acts without looking whether the game is " + ("won" if state == "Win" else "lost"), w):
                continue
            me = e.st.mem.get(("P", "self"), SELF)
            kinds.add(on)
            if not on:
                ck.ob(nm + "/not-yet", me is SELF, "changes the video of a game that is not " + state, w)
                continue
            ch = {k for k, _ in (me.args[3] if me.op == "S" else ())}
            mb = get_field(me, "minesweeper_board")
            ch2 = {k for k, _ in (mb.args[3] if mb.op == "S" else ())}
            ck.ob(nm + "/only", ch <= {"minesweeper_board"} and ch2 <= {"game_board"}, f"changes {ch} {ch2}", w)
            mine = lambda s, i, j: I.ev(s, teq(select(select(BD, i), j), C(-1)))
            if state == "Win":
                def rule(s, i, j, cell):
                    r = cell(lambda c: teq(c, C(10)))
                    return None if r is None else C(11) if r else KEEP
            else:
                def rule(s, i, j, cell):
                    a, b = cell(lambda c: teq(c, C(10))), mine(s, i, j)
                    return C(16) if a and b else KEEP if a is False or b is False else None
            ks = gridmap(ck, nm, I, get_field(mb, "game_board"), [GB], rule, [F("height"), get_field(MBD, "row")], lambda i: [F("width"), get_field(MBD, "column")], w)
            ck.ob(nm + "/both", ks is not None and len(ks) == 2, f"{ks}", w)
        ck.ob(nm + "/kinds", kinds == {True, False}, f"{kinds}", w)


def a01(ck):
    ck.rule = ("Each statistic is a pass over every cell of the board, once: a count of a number rises exactly on cells showing it; the isolated-number count rises exactly on positive cells whose clipped 3x3 window holds no 0 (a scan of the window that ended without meeting one); "
               "islands are the openings of the grid that has a 0 on exactly those cells; an opening is counted at each 0 of a working copy, which a flood filling the whole clipped window recursively has erased before the next cell; 3BV is isolated numbers plus openings.")
    p = prog()
    B = mk("init", "a1")
    rows, cols = board_dims(B)
    at2 = lambda i, j: select(select(B, i), j)
    fop = fn_named(p, "utils::cal_op")
    # counts of each number
    g = fn_named(p, "utils::cal_cell_nums")
    I = Interp(p)
    I.split = lambda n: True
    ex = I.analyse(g.name)
    ck.use(I, ex)
    w = wh(g)
    ck.ob("numbers/exits", len(ex) >= 1, "never returns", w)
    for e in ex:
        ck.ob("numbers/pure", e.st.mem.get(("P", "a1"), B) is B, "the board changes", w)
        G, N = sweep(ck, "numbers", I, e.val, w)
        if G is None:
            continue
        ini = N.init.get(G.args[1:])
        ck.ob("numbers/from", ini is not None and all(zeros(x, 9) for x in ini), f"counts start as {[show(x)[:100] for x in ini or ()]}", w)
        kinds = set()
        for s in N.back:
            v = at(s, G)
            ps = axes(I, N, s, rows, cols)
            if not ck.ob("numbers/all", bool(ps), "not every cell is passed exactly once", w):
                continue
            good = False
            for i, j in ps:
                c = at2(i, j)
                neg = I.ev(s, tlt(c, C(0)))
                if neg is None:
                    neg = I.ev(s, teq(c, C(-1)))
                if neg is True:
                    good = v is G
                elif neg is False and v.op == "store":
                    idx = v.args[1]
                    while idx.op == "cast":
                        idx = idx.args[1]
                    good = v.args[0] is G and idx is c and v.args[2] is add(select(G, v.args[1]), C(1))
                kinds.add(neg)
            ck.ob("numbers/cell", good, f"counts become {show(v)[:200]}", w)
        ck.ob("numbers/kinds", kinds == {True, False}, f"{kinds}", w)
    # isolated numbers
    def isolated(I):
        def cond(s, i, j, outside):
            c = at2(i, j)
            pos = I.ev(s, tlt(C(0), c))
            if pos is False:
                return False
            z = win_some(I, s, B, (i, j), rows, cols(i), lambda v: v == 0, outside)
            return None if z is None else (not z if pos else False if z else None)
        return cond
    g3 = fn_named(p, "utils::cal3BVonIsland")
    I = Interp(p)
    I.split = lambda n: True
    ex = I.analyse(g3.name)
    ck.use(I, ex)
    ck.ob("isolated/exits", len(ex) >= 1, "never returns", wh(g3))
    for e in ex:
        ck.ob("isolated/pure", e.st.mem.get(("P", "a1"), B) is B, "the board changes", wh(g3))
        count_cells(ck, "isolated", I, e.val, e.st, isolated(I), rows, cols, wh(g3))
    g = fn_named(p, "utils::cal_bbbv")
    I = Interp(p, opaque=[g3.name, fop.name])
    ex = I.analyse(g.name)
    ck.use(I, ex)
    for e in ex:
        ck.ob("3bv", e.val is add(mk("call", g3.name, (mk("ref", B),)), mk("call", fop.name, (mk("ref", B),))), f"is {show(e.val)[:200]}", wh(g))
    # islands
    g = fn_named(p, "utils::cal_isl")
    I = Interp(p, opaque=[fop.name])
    I.split = lambda n: True
    ex = I.analyse(g.name)
    ck.use(I, ex)
    w = wh(g)
    ck.ob("islands/exits", len(ex) >= 1, "never returns", w)
    for e in ex:
        v = e.val
        K = v.args[1][0].args[0] if v.op == "call" and v.args[0] == fop.name else None
        if not ck.ob("islands/openings", K is not None, f"is {show(v)[:200]}, not the openings of a grid", w):
            continue
        G, N = sweep(ck, "islands", I, K, w)
        if G is None:
            continue
        ini = N.init.get(G.args[1:])
        fill = None
        for x in ini or ():
            ok = x.op == "from_elem" and x.args[0].op == "from_elem" and x.args[1] in rows and x.args[0].args[1] in cols(C(0)) and is_int(x.args[0].args[0]) and x.args[0].args[0] is not C(0)
            fill = x
            ck.ob("islands/from", ok, f"the grid starts as {show(x)[:200]}", w)
        cond = isolated(I)
        gridmap(ck, "islands", I, K, [fill], lambda s, i, j, cell: {None: None, True: C(0), False: KEEP}[cond(s, i, j, (N.inner, N.outer))], rows, cols, w)
    # openings
    inf = None
    g = fop
    I0 = Interp(p)
    try:
        inf = fn_named(p, "utils::infect_board")
    except Infra:
        pass
    if inf is None:
        raise Infra("the routine erasing an opening was not found")
    I = Interp(p, opaque=[inf.name])
    I.split = lambda n: True
    ex = I.analyse(g.name)
    ck.use(I, ex)
    w = wh(g)
    ck.ob("openings/exits", len(ex) >= 1, "never returns", w)
    for e in ex:
        n = e.val
        ck.ob("openings/pure", e.st.mem.get(("P", "a1"), B) is B, "the board changes", w)
        G, N = sweep(ck, "openings", I, n, w)
        if G is None:
            continue
        ck.ob("openings/from", N.init.get(G.args[1:]) == {C(0)}, "the count does not start at 0", w)
        grids = [x for x in N.vars.values() if any(mentions(at(s, x), lambda y: y.op == "eff" and y.args[0] == inf.name) for s in N.back)]
        if not ck.ob("openings/copy", len(grids) == 1, "no working copy", w):
            continue
        W = grids[0]
        src = N.init.get(W.args[1:])
        for x in src or (None,):
            if x is B:
                continue
            if not ck.ob("openings/copied", x is not None and x.op == "phi", f"the working copy starts as {x is not None and show(x)[:150]}", w):
                continue
            if built(I, x):
                gridmap(ck, "openings/copying", I, x, [B], lambda s, i, j, cell: at2(i, j), rows, cols, w)
                continue
            G2, N2 = sweep(ck, "openings/copying", I, x, w)
            if G2 is None:
                continue
            fill = None
            for y in N2.init.get(G2.args[1:]) or ():
                fill = y
                ck.ob("openings/copy-size", y.op == "from_elem" and y.args[0].op == "from_elem" and y.args[1] in rows and y.args[0].args[1] in cols(C(0)), f"the working copy has the wrong size: {show(y)[:150]}", w)
            gridmap(ck, "openings/copying", I, x, [fill], lambda s, i, j, cell: at2(i, j), rows, cols, w)
        kinds = set()
        for s in N.back:
            ps = axes(I, N, s, rows + [mk("len", W)], lambda i: cols(i) + [mk("len", select(W, C(0))), mk("len", select(W, i))])
            if not ck.ob("openings/all", bool(ps), "not every cell is passed exactly once", w):
                continue
            why = "?"
            for i, j in ps:
                z = I.ev(s, teq(select(select(W, i), j), C(0)))
                if z is None:
                    why = "a cell is passed without looking whether it starts an opening"
                    continue
                want = (mk("eff", inf.name, 0, (mk("ref", W), i, j)), add(G, C(1))) if z else (W, G)
                why = "" if (at(s, W), at(s, G)) == want else f"on a cell {'starting an opening' if z else 'of none'} the copy becomes {show(at(s, W))[:100]}, the count {show(at(s, G))[:80]}"
                kinds.add(z)
                if not why:
                    break
            ck.ob("openings/cell", not why, why, w)
        ck.ob("openings/kinds", kinds == {True, False}, f"{kinds}", w)
    erase(ck, p, inf)


def zeros(x, n):
    if x.op == "from_elem":
        return x.args[0] is C(0) and x.args[1] is C(n)
    return x.op in ("veclit", "arr", "tuple") and len(x.args) == n and all(y is C(0) for y in x.args)


def erase(ck, p, inf):
    """the recursive flood: marks its own cell with something that is not 0, then erases from every cell of the clipped window that is still 0"""
    w = wh(inf)
    I = Interp(p, opaque=[inf.name])
    I.split = lambda n: True
    B, X0, Y0 = mk("init", "a1"), mk("init", "a2"), mk("init", "a3")
    ex = I.analyse(inf.name)
    ck.use(I, ex)
    ck.ob("erase/exits", len(ex) >= 1, "never returns", w)
    for e in ex:
        t = e.st.mem.get(("P", "a1"), B)
        if not ck.ob("erase/sweep", t.op == "phi", f"the board becomes {show(t)[:150]}", w):
            continue
        W = Worklist(I)
        if W.ok:
            erase_listed(ck, I, t, W, B, X0, Y0, w)
            continue
        fam = Family(I, t)
        own = set()
        for x, s in fam.inits:
            if x.op == "eff" or x.op == "phi":
                continue
            b, ws = peel(x)
            own.add(x)
            ck.ob("erase/own", b is B and len(ws) == 1 and ws[0][0] is X0 and ws[0][1] is Y0 and is_int(ws[0][2]) and ws[0][2] is not C(0), f"the routine's own cell: {show(x)[:150]}", w)
        ck.ob("erase/own-cell", len(own) == 1, "the routine does not erase its own cell first", w)
        n = 0
        dims = ([mk("len", B)] + [mk("len", x) for x in own | fam.phis], [mk("len", select(x, C(0))) for x in own | fam.phis | {B}] + [mk("len", select(B, X0))])
        work, seen, kept, inner = [t], set(), [], []
        while work:
            q = work.pop()
            if q in seen:
                continue
            seen.add(q)
            for x, sts in I.phi_in.get(q, {}).items():
                for s in sts:
                    if x.op == "phi":
                        work.append(x)
                        if x is q:
                            kept.append((q, s))
                    elif x.op == "eff" and x.args[0] == inf.name:
                        b, i, j = x.args[2][0].args[0], x.args[2][1], x.args[2][2]
                        work.append(b) if b.op == "phi" else None
                        r = window_ok(I, s, i, j, (X0, Y0), *dims)
                        ck.ob("erase/spread", not r and I.ev(s, teq(select(select(b, i), j), C(0))) is True, f"spreads where it should not: {r}", w)
                        n += 10
                        inner.append((i, j, b))
                    elif x not in own:
                        ck.fail("erase/other", f"the board becomes {show(x)[:150]}", w)
        for q, s in kept:
            for i, j, b in inner:
                jp = the_phi(j)
                if jp is None or jp.args[0] != q.args[0] or b is not q or at(s, jp) is not add(jp, C(1)):
                    continue
                n += 1
                ck.ob("erase/skip", I.ev(s, teq(select(select(q, i), j), C(0))) is False, "the flood passes over a cell that may be 0", w)
        ck.ob("erase/seen", n >= 11, "no spreading found", w)


def erase_listed(ck, I, t, W, B, X0, Y0, w):
    """the same flood with a list of pending cells: begins with the given cell; each cell taken off is marked, and every cell of its window that is still 0 is put on"""
    start = mk("veclit", S("tuple", None, {"0": X0, "1": Y0}))
    ck.ob("erase/start", bool(W.inits) and all(x is start for x, _ in W.inits) and not W.other, f"the list starts as {[show(x)[:80] for x, _ in W.inits]}, {[show(x)[:80] for x in W.other]}", w)
    if W.item is None:
        return ck.fail("erase/seen", "nothing is ever taken off the list", w)
    ci, cj = get_field(W.item, "0"), get_field(W.item, "1")
    cs = Cells(I, t)
    ck.ob("erase/base", {b for b, _ in cs.bases} == {B}, f"the board starts as {[show(b)[:80] for b, _ in cs.bases]}", w)
    ck.ob("erase/own", bool(cs.writes), "cells are never marked", w)
    for i, j, v, s in cs.writes:
        ck.ob("erase/mark", i is ci and j is cj and is_int(v) and v is not C(0), f"cell ({show(i)},{show(j)}) becomes {show(v)[:100]}", w)
    for q, u, s, ws in cs.edges:
        # every turn of the list's loop marks the cell it takes off
        if q.args[0] == W.w.args[0] and u is q:
            ck.fail("erase/marks", "a cell is taken off the list without being marked", w)
    grids = lambda s: {x for f in s.facts for x in subterms(f) if x.op in ("phi", "store", "init") and (x in cs.phis or x is B or peel(x)[0] in cs.phis or peel(x)[0] is B)}
    zero = lambda s, i, j: {I.ev(s, teq(select(select(g, i), j), C(0))) for g in grids(s)}
    every = [g for g in cs.phis | {B}] + [x for _, x, _, _ in cs.edges]
    dims = ([mk("len", x) for x in every], [mk("len", select(x, C(0))) for x in every])
    flood_pushes(ck, "erase", I, W, (ci, cj), dims, lambda s, i, j: True in zero(s, i, j), lambda s, i, j: False in zero(s, i, j), w)
    ck.ob("erase/dropped", not W.dropped, "a cell is taken off the list without going through its window", w)
