"""How likely each of some cells is to be an opening."""
from props.chording import *
from props.board_machine import find_cell
from loops import came_round, window_done

SPAN = range(-3, 20)      # every value a cell of a board in play can have, and some it cannot


def a08(ck):
    ck.rule = ("The routine is followed through its loops over the listed cells and over each one's window: every way round the innermost loop is judged at every cell value, at the cell itself and elsewhere - the product is left alone exactly at opened cells and cells known safe, "
               "and elsewhere multiplied by one minus the possibility the engine gives that very cell on the board as it then stands, after which the cell is taken for safe; a cell's answer is 0 exactly where the cell itself is opened, a marked mine is met, or the engine refuses; "
               "each listed cell starts from 1 and from the board given.")
    p = prog()
    g = fn_named(p, "cal_is_op_possibility_cells")
    w = wh(g)
    eng = fn_named(p, "algorithms::cal_possibility_onboard").name
    I = Interp(p, opaque=[eng])
    I.split = lambda n: True
    ex = I.analyse(g.name)
    ck.use(I, ex)
    ck.ob("complete", not I.unmodelled, f"not followed: {I.unmodelled}", w)
    G, MINES, CELLS = (mk("init", f"a{k}") for k in (1, 2, 3))
    if not ck.ob("exits", len(ex) == 1 and ex[0].val.op == "phi", f"{len(ex)} outcomes, the first {[show(e.val)[:80] for e in ex][:1]}", w):
        return
    ans = ex[0].val
    head = ans.args[0]
    # the list, in order
    turns_ = [s for s in arrivals(I, head) if came_round(I, head, s)]
    ks = [q for q in I.phi_in if q.args[0] == head and q.op == "phi" and all(at(s, q) is add(q, C(1)) for s in turns_) and set(I.phi_in[q]) == {C(0), add(q, C(1))}]
    if not ck.ob("list", len(ks) >= 1 and bool(turns_), "no loop over the listed cells", w):
        return
    ck.ob("list/all", any(I.ev(ex[0].st, tlt(k, mk("len", CELLS))) is False for k in ks) and not any(s.dead if hasattr(s, "dead") else False for s in turns_), "the loop ends before the last listed cell", w)
    k = ks[0]
    ck.ob("list/each", all(I.ev(s, tlt(k, mk("len", CELLS))) is True for s in turns_), "a turn is taken beyond the list", w)
    x0, y0 = select(select(CELLS, k), C(0)), select(select(CELLS, k), C(1))
    own = select(select(G, x0), y0)
    rows, cols = [mk("len", G)], [mk("len", select(G, C(0)))]

    # the answer: a list filled with 1 and corrected in place, or one grown by each cell's answer
    inits = [t for t in I.phi_in[ans] if not any(x.op == "phi" for x in subterms(t))]
    place = inits == [mk("from_elem", C(1.0), mk("len", CELLS))]
    ck.ob("start", place or inits == [mk("veclit")], f"the answers start as {[show(t)[:80] for t in inits]}", w)

    def engine_calls(t):
        return {x for x in subterms(t) if x.op == "call" and x.args[0] == eng}


    def refused(s):
        for f, v in s.facts.items():
            while f.op == "not":
                f, v = f.args[0], not v
            if f.op == "isv" and engine_calls(f):
                yes = v if f.args[1] == "Ok" else (not v if f.args[1] == "Err" else None)
                if yes is False:
                    return True
        return False

    def looked(s):
        return [(i, j, x) for i, j, x in find_cell(s, G, lambda x: True) if the_phi(i) is not None and the_phi(j) is not None and the_phi(j).args[0] != head and the_phi(i) is not the_phi(j)]

    def kinds(s, i, j, x):
        """what the rule says of the cell (i, j), over everything the path leaves open"""
        out = set()
        for v in SPAN:
            s1 = I.assume(s, teq(x, C(v)), True)
            if s1 is None:
                continue
            here = s1
            for c, yes in ((teq(i, x0), True), (teq(j, y0), True)):
                here = I.assume(here, c, yes) if here is not None else None
            # the cell itself has one value, whichever way it is named
            here = I.assume(here, teq(own, C(v)), True) if here is not None else None
            if here is not None and any(from_parts(I, here, f) is (not b) for f, b in s.facts.items()):
                here = None
            away = [I.assume(s1, teq(i, x0), False), I.assume(s1, teq(j, y0), False)]
            if v == 11:
                out.add("zero")
                continue
            if here is not None:
                out.add("zero" if v < 10 else "pass" if v == 12 else "factor")
            if any(z is not None for z in away):
                out.add("pass" if v < 10 or v == 12 else "factor")
        return out

    def zero_due(s):
        if I.ev(s, tlt(own, C(10))) is True or I.ev(s, teq(own, C(11))) is True:
            return True
        return any(kinds(s, i, j, x) == {"zero"} or kinds(s, i, j, x) == {"factor"} and refused(s) for i, j, x in looked(s))

    # the places each variable is carried through
    def family(root):
        fam, work = set(), [root]
        while work:
            q = work.pop()
            if q in fam:
                continue
            fam.add(q)
            for t in I.phi_in.get(q, {}):
                b, ws = peel1(t)
                if b.op == "phi":
                    work.append(b)
        return fam

    def peel1(t):
        ws = []
        while t.op in ("store", "push"):
            ws.append((t.args[1], t.args[2]) if t.op == "store" else (None, t.args[1]))
            t = t.args[0]
        return t, ws

    seen = {"factor": 0, "zero": 0, "pass": 0}
    inner_heads = set()

    def product_step(tag, s, old, new, where):
        """one way round the innermost loop"""
        i, j, x = where
        kd = kinds(s, i, j, x)
        if not ck.ob(tag + "/told", len(kd) == 1, f"the loop goes on at a cell not told to be {' or '.join(sorted(kd))}", w):
            return
        kd = next(iter(kd))
        bs = [q for q in I.phi_in if q.args[0] == the_phi(j).args[0] and q.op == "phi" and q in boards]
        cs = engine_calls(new)
        if kd == "zero":
            ck.fail(tag + "/zero", "the loop goes on past a cell that makes the answer 0", w)
        elif kd == "pass":
            ck.ob(tag + "/pass", new is old, f"the product becomes {show(new)[:120]} at an opened cell or one known safe", w)
            ck.ob(tag + "/pass-board", all(at(s, b) is b for b in bs), "the board assumed changes at an opened cell or one known safe", w)
            seen["pass"] += 1
        else:
            want = None
            for b in bs:
                for c in cs:
                    r = c.args[1]
                    if len(r) == 2 and unref(r[0]) is b and unref(r[1]) is MINES:
                        P = get_field(get_field(c, "Ok.0"), "0")
                        fs = {mk("fsub", C(1.0), select(select(P, i), j)), old}
                        want = new if new.op == "fmul" and set(new.args) == fs else None
                        if want is new and at(s, b) is not None:
                            ck.ob(tag + "/assumed", at(s, b) is mk("store", b, i, mk("store", select(b, i), j, C(12))), f"afterwards the board assumed is {show(at(s, b))[:120]}", w)
            ck.ob(tag + "/factor", want is new, f"the product becomes {show(new)[:200]}, not itself times one minus the cell's possibility", w)
            seen["factor"] += 1

    # boards assumed: every grid the engine is asked about
    asked = {unref(c.args[1][0]) for ss in I.arrivals.values() for s in ss for t in list(s.facts) + [v for v in s.mem.values() if v is not None] for c in engine_calls(t)}
    ck.ob("asked", bool(asked) and all(a.op == "phi" for a in asked), f"the engine is asked about {[show(a)[:60] for a in asked][:3]}", w)
    boards = set()
    for a in asked:
        boards |= family(a)
    for b in boards:
        ck.ob("board/own", b.args[0] != head, "what was assumed for one listed cell is kept for the next", w)
        for t, sts in I.phi_in.get(b, {}).items():
            base, ws = peel1(t)
            ck.ob("board/from", base is G and not ws or base in boards, f"the board assumed is {show(t)[:100]}", w)

    def inner_cells(s, q):
        """the cell the innermost loop is at, when this is a way round it"""
        out = []
        for i, j, x in looked(s):
            if the_phi(j).args[0] == q.args[0] and at(s, the_phi(j)) is add(the_phi(j), C(1)) and the_phi(i).args[0] != q.args[0]:
                r = window_ok(I, s, i, j, (x0, y0), rows, cols, zero_due)
                if ck.ob("window", not r, f"not the window of the listed cell: {r}", w):
                    out.append((i, j, x))
                    inner_heads.add(q.args[0])
        return out

    def carried(root, unit, wrap):
        """every value the variable takes; `unit` the value to start a listed cell from, `wrap` where it is kept"""
        fam = family(root)
        for q in fam:
            for t, sts in I.phi_in.get(q, {}).items():
                for s in sts:
                    if came_round(I, q.args[0], s) and q.args[0] != head and any(the_phi(j).args[0] == q.args[0] for i, j, x in looked(s)):
                        cs = inner_cells(s, q)
                        if not ck.ob("cell", len(cs) == 1, f"{len(cs)} cells looked at in one turn", w):
                            continue
                        old, new = (select(q, k), select(t, k)) if wrap else (q, t)
                        if wrap:
                            b, ws = peel1(t)
                            ck.ob("in-place", b is q and all(ix is k for ix, _ in ws), f"the answers become {show(t)[:100]}", w)
                        product_step("turn", s, old, new, cs[0])
                        continue
                    b, ws = peel1(t)
                    if wrap and b.op == "phi" and len(ws) == 1 and ws[0] == (k, C(0.0)) or not wrap and t is C(0.0):
                        ck.ob("zero", zero_due(s), "the answer is 0 although no reason for it was met", w)
                        seen["zero"] += 1
                        continue
                    ck.ob("carried", b in fam and not ws or t is unit or wrap and q is root and t in inits, f"the answer becomes {show(t)[:120]}", w)
        return fam
    if place:
        carried(ans, None, True)
    else:
        for t, sts in I.phi_in[ans].items():
            for s in sts:
                if t in inits:
                    continue
                b, ws = peel1(t)
                if not ck.ob("one-each", b is ans and len(ws) == 1, f"the answers become {show(t)[:120]}", w):
                    continue
                v = ws[0][1]
                if v is C(0.0):
                    ck.ob("zero", zero_due(s), "the answer is 0 although no reason for it was met", w)
                    seen["zero"] += 1
                elif ck.ob("product", v.op == "phi", f"a cell's answer is {show(v)[:120]}", w):
                    fam = carried(v, C(1.0), False)
                    ck.ob("product/own", all(q.args[0] != head for q in fam), "one cell's product goes on into the next", w)
    # leaving a window early, or a listed cell without its window, happens only where the answer is 0
    n = 0
    for s in turns_:
        v = at(s, ans)
        b, ws = peel1(v)
        zero = bool(ws) and ws[0][1] is C(0.0)
        if zero:
            continue
        n += 1
        ck.ob("whole", not inner_heads or any(window_done(I, q, x0, rows)(s) for q in I.phi_in if q.op == "phi" and q.args[0] != head and add(q, C(1)) in I.phi_in[q]), "a cell's answer is taken before its window is gone through", w)
    ck.ob("whole/some", n > 0, "no cell's window is ever gone through", w)
    for kd, c in seen.items():
        ck.floor(f"{kd} cases", c, 1)
    for e in ex:
        ck.ob("pure", all(e.st.mem.get(("P", f"a{z}"), mk("init", f"a{z}")) is mk("init", f"a{z}") for z in (1, 3)), "an argument changes", w)


def unref(t):
    while t.op in ("ref", "*") and len(t.args) == 1:
        t = t.args[0]
    return t


def from_parts(I, s, f):
    """the truth of a condition, told from its parts only"""
    if f.op == "not":
        r = from_parts(I, s, f.args[0])
        return None if r is None else not r
    if f.op in ("or", "and"):
        rs = [from_parts(I, s, x) for x in f.args]
        hit = f.op == "or"
        return hit if hit in rs else (not hit) if None not in rs else None
    return I.ev(s, f)
