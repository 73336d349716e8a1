"""Board utilities: opening rule, statistics, generation, caches, encoded boards, solvers."""
from base import *
from loops import *


def prog():
    return dump("base")


def dims_of(I, ref="a1"):
    """the terms that stand for the number of rows / columns of a board argument"""
    rows, cols = set(), set()
    b = mk("init", ref)
    for tr in list(I.calls_seen) if False else ():
        pass
    return rows, cols


def is_row(t, base):
    if t.op == "call" and str(t.args[0]).endswith("get_row"):
        return mentions(t, lambda x: x is base)
    return t is mk("len", base)


def is_col(t, base):
    if t.op == "call" and str(t.args[0]).endswith("get_column"):
        return mentions(t, lambda x: x is base)
    return t.op == "len" and t.args[0] is select(base, C(0))


class Dims(list):
    """collects the dimension terms of a board from everything a set of states mentions"""


def dim_terms(I, bases):
    rows, cols = [], []
    seen = set()
    for p, ins in I.phi_in.items():
        for t, sts in ins.items():
            for s in sts:
                for f in list(s.facts) + list(s.iv):
                    for x in subterms(f, seen):
                        for b in bases:
                            if is_row(x, b) and x not in rows:
                                rows.append(x)
                            if is_col(x, b) and x not in cols:
                                cols.append(x)
    return rows, cols


def u01(ck):
    ck.rule = ("Every write of the opening routine to the visible board, traced through its loops from the exit states back to the argument, stores at the cell being worked off the layout value "
               "(where the layout is known not to be a mine) or 15 (where it is a mine), or, in a sweep made only after a mine was opened and covering all rows and columns, 14 on marked cells known not to be mines; "
               "cells are put on the worklist exactly for covered cells of the clipped 3x3 window of a cell known to be empty, and the work loop is left only when the list is empty.")
    p = prog()
    g = fn_named(p, "utils::refresh_board")
    w = loc(g)
    I = Interp(p)
    I.split = lambda n: True
    ex = I.analyse(g.name)
    ck.use(I, ex)
    B, G, L = mk("init", "a1"), mk("init", "a2"), mk("init", "a3")
    rows, cols = dim_terms(I, [B, G])
    W = Worklist(I)
    if not ck.ob("worklist", W.ok and W.item is not None and not W.other, f"no single worklist found ({len(W.heads)} candidates)", w):
        return
    ck.ob("worklist/start", {t for t, _ in W.inits} == {L}, f"the worklist starts as {[show(t) for t, _ in W.inits]}", w)
    ci, cj = get_field(W.item, "0"), get_field(W.item, "1")

    def lay(i, j):
        return select(select(B, i), j)
    ck.ob("exits", len(ex) > 0, "no exit", w)
    opens = {"num": 0, "zero": 0, "mine": 0}
    sweeps = []
    mine_states = []
    for e in ex:
        empty = any(I.ev(e.st, q) is True for q in (teq(mk("len", W.w), C(0)),))
        ck.ob("until-empty", empty, "the routine returns with cells left on the worklist", w)
        cs = Cells(I, e.st.mem.get(("P", "a2"), G), e.st)
        ck.ob("base", {b for b, _ in cs.bases} <= {G}, f"visible board replaced by {[show(b) for b, _ in cs.bases]}", w)
        for i, j, v, s in cs.writes:
            if not ck.ob("write/cell", j is not None, "a whole row is replaced", w):
                continue
            if v is C(14):
                r = board_ok(I, s, i, j, rows, cols)
                ck.ob("wrong-mark/axes", not r, r, w)
                gv = [x for x in facts_cells(s, ("phi", "init", "store"), i, j) if I.const_of(s, x) is C(11)]
                ck.ob("wrong-mark/marked", bool(gv), "14 is written on a cell not known to be marked", w)
                ck.ob("wrong-mark/safe", I.ev(s, teq(lay(i, j), C(-1))) is False, "14 is written on a cell that may be a mine", w)
                sweeps.append((i, j, s))
                continue
            ck.ob("write/at-item", i is ci and j is cj, f"writes to ({show(i)},{show(j)}), not to the cell being worked off", w)
            l = lay(i, j)
            if v is C(15):
                ck.ob("write/mine", I.ev(s, tlt(l, C(0))) is True or I.ev(s, teq(l, C(-1))) is True, "15 is written on a cell not known to be a mine", w)
                opens["mine"] += 1
                mine_states.append(s)
            else:
                ck.ob("write/value", (v is l or I.ev(s, teq(v, l)) is True) and (I.ev(s, tlt(l, C(0))) is False or I.ev(s, teq(l, C(-1))) is False), f"{show(v)} is written where the layout is {show(l)}", w)
                if I.ev(s, teq(l, C(0))) is True:
                    opens["zero"] += 1
                elif I.ev(s, teq(l, C(0))) is False:
                    opens["num"] += 1
                else:
                    opens["zero"] += 1
                    opens["num"] += 1
        # every item worked off is opened
        for pphi, t, s, ws in cs.edges:
            if pphi.args[0] == W.w.args[0] and t is pphi and any(q is W.w for q in W.phis) and s in [x for tt, xs in I.phi_in.get(W.w, {}).items() for x in xs if tt is not W.w]:
                if any(tt in [a for a, _ in W.inits] for tt, xs in I.phi_in[W.w].items() for x in xs if x is s):
                    continue
                done = any(I.ev(s, teq(x, lay(ci, cj))) is True for x in facts_cells(s, ("phi", "init", "store"), ci, cj))
                ck.ob("write/all", done, "a cell is taken off the worklist without being opened", w)
    for kk, n in opens.items():
        ck.ob(f"opens/{kk}", n > 0, f"no write for {kk}", w)
    # pushes

    def gcell(s, i, j):
        return facts_cells(s, ("phi", "init", "store"), i, j)

    def wanted(s, i, j):
        return I.ev(s, teq(lay(ci, cj), C(0))) is True and any(iv_in(I, s, x, (10, 12)) for x in gcell(s, i, j))

    def unwanted(s, i, j):
        return any(I.ev(s, teq(x, C(10))) is False for x in gcell(s, i, j))
    n, kept = flood_pushes(ck, "flood", I, W, (ci, cj), (rows, cols), wanted, unwanted, w, lambda s: I.ev(s, teq(lay(ci, cj), C(0))) is False)
    ck.ob("flood/kept", kept > 0, "no loop edge without a push", w)
    # the sweep for wrong marks happens exactly after a mine was opened
    ck.ob("sweep", len(sweeps) > 0, "wrong marks are never shown", w)
    flags = set()
    for i, j, s in sweeps:
        fl = [t for t, v in s.facts.items() if t.op == "phi" and v is True and t.args[0] == W.w.args[0]]
        flags |= set(fl)
    if ck.ob("sweep/flag", len(flags) >= 1, "the sweep for wrong marks is not guarded by a flag raised when a mine was opened", w):
        for fl in flags:
            for t, sts in I.phi_in.get(fl, {}).items():
                for s in sts:
                    if t is TRUE:
                        ck.ob("sweep/raised", any(s is m or same_path(s, m) for m in mine_states), "the mine flag is raised on a path that opened no mine", w)
                    else:
                        ck.ob("sweep/lowered", t is FALSE and any(s is x for _, x in W.inits) or t is fl and not any(s is m for m in mine_states), f"the mine flag becomes {show(t)}", w)
        for e in ex:
            ran = not any(I.ev(e.st, fl) is False for fl in flags)
            cs = Cells(I, e.st.mem.get(("P", "a2"), G), e.st)
            has = any(v is C(14) for _, _, v, _ in cs.writes)
            ck.ob("sweep/when", ran == has, "the sweep for wrong marks runs without a mine opened, or is skipped after one", w)
    # sweep completeness: a cell passed over is not a marked safe cell
    for i, j, s0 in sweeps:
        jp = the_phi(j)
        for e in ex:
            cs = Cells(I, e.st.mem.get(("P", "a2"), G), e.st)
            for q, t, s, ws in cs.edges:
                if jp is not None and q.args[0] == jp.args[0] and t is q:
                    okk = any(I.ev(s, teq(x, C(11))) is False for x in facts_cells(s, ("phi", "init", "store"), i, j)) or I.ev(s, teq(lay(i, j), C(-1))) is True
                    ck.ob("sweep/skip", okk, "the sweep passes over a cell that may be a wrongly marked one", w)
    ck.ob("pure", all(e.st.mem.get(("P", "a1"), B) is B for e in ex), "the layout is written", w)


def facts_cells(st, ops, i, j):
    """two-dimensional selects with indices i, j known about in st, base not the layout argument a1"""
    out = []
    seen = set()
    for t in list(st.facts) + list(st.iv):
        for x in subterms(t):
            if x in seen or x.op != "sel":
                continue
            seen.add(x)
            b, ix = index_chain(x)
            if len(ix) == 2 and ix[0] is i and ix[1] is j and b.op in ops and b is not mk("init", "a1"):
                out.append(x)
    return out


def iv_in(I, s, x, vals):
    c = I.const_of(s, x)
    if c is not None:
        return c.args[0] in vals
    d = TRUE
    e = FALSE
    for v in vals:
        e = tor(e, teq(x, C(v)))
    return I.ev(s, e) is True


def same_path(a, b):
    return a.facts == b.facts and a.trace == b.trace
