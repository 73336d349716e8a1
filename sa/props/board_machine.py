"""The mouse/board state machine (`MinesweeperBoard::step` and what it calls)."""
from base import *
from loops import *
from models import wr, rd
from scans import *
from props.chording import window_count

MS = ["UpUp", "UpDown", "UpDownNotFlag", "DownUp", "Chording", "ChordingNotFlag", "DownUpAfterChording", "Undefined"]
GS = ["Ready", "PreFlaging", "Playing", "Win", "Loss", "Display"]
SELF = mk("init", "self")
POS = mk("init", "a3")
X, Y = get_field(POS, "0"), get_field(POS, "1")
ROW, COL = get_field(SELF, "row"), get_field(SELF, "column")
GB0, BD0 = get_field(SELF, "game_board"), get_field(SELF, "board")
CELL = select(select(GB0, X), Y)
TRUTH = select(select(BD0, X), Y)
COUNTERS = ("left", "right", "double", "ce", "flag", "bbbv_solved")


def h_refresh(I, st, ci, a):
    board, gb, cells = I.deep(st, a[0]), I.deep(st, a[1]), I.deep(st, a[2])
    s = wr(I, st, a[1], mk("opened", board, gb, I.snapshot(st, cells)))
    I.log.append(("open", board, gb, I.snapshot(st, cells), s, ci))
    return [(s, UNIT)]


def find_is_win(p):
    c = [f for f in p.fns.values() if f.kind == "AssocFn" and f.impl_self and "MinesweeperBoard<T>" in f.impl_self
         and f.argc == 1 and f.ty(0) == "bool"]
    return c[0] if len(c) == 1 else None


_cache = {}


def prog():
    return dump("base")


def step_fn(p):
    f = fn_named(p, "step", r"MinesweeperBoard<T>")
    return f.name


def scenario(gs, ms, ev, board_in=None, cell=None, truth=None, pre0=None, opaque_win=True, handlers=True, split=False):
    """exits of step in one scenario: fixed game/mouse state and event, position class, cell class"""
    key = (gs, ms, ev, board_in, cell, truth, pre0, opaque_win, handlers, split)
    if key in _cache:
        return _cache[key]
    p = prog()
    H = {}
    if handlers:
        H[fn_named(p, "utils::refresh_board").name] = h_refresh
    w = find_is_win(p)
    if opaque_win and w:
        def h_win(I, st, ci, a):
            s = st.copy()
            root, path = I.target(s, a[0])
            me = I.read(s, root, path)
            g, b = get_field(me, "game_board"), get_field(me, "board")
            for fl in ("pointer_x", "pointer_y"):
                I.write(s, root, tuple(path) + (("F", fl),), mk("winptr", fl, g))
            return [(s, mk("winp", g, b))]
        H[w.name] = h_win
    I = Interp(p, handlers=H)
    if split:
        I.split = lambda n: True

    def setup(st, I):
        r = ("P", "self")
        setfld(I, st, ("game_board_state",), enumv("GameBoardState", gs))
        if ms is not None:
            setfld(I, st, ("mouse_state",), enumv("MouseState", ms))
        I.note_ty(X, "usize")
        I.note_ty(Y, "usize")
        for q in (ROW, COL):
            I.note_ty(q, "usize")
        if board_in is True:
            st = I.assume(I.assume(st, tlt(X, ROW), True), tlt(Y, COL), True)
        elif board_in is False:
            st = I.assume(I.assume(st, teq(X, ROW), True), teq(Y, COL), True)
        if cell == "open":
            st = I.assume(I.assume(st, tlt(CELL, C(10)), True), tlt(CELL, C(0)), False)
        elif isinstance(cell, int):
            st = I.assume(st, teq(CELL, C(cell)), True)
        if truth == "num":
            st = I.assume(I.assume(st, tlt(TRUTH, C(1)), False), tlt(TRUTH, C(9)), True)
        elif isinstance(truth, int):
            st = I.assume(st, teq(TRUTH, C(truth)), True)
        elif truth == "safe":
            st = I.assume(I.assume(st, tlt(TRUTH, C(0)), False), tlt(TRUTH, C(9)), True)
        if pre0 is not None:
            st = I.assume(st, teq(get_field(SELF, "pre_flag_num"), C(0)), pre0)
        return st
    ex = I.analyse(step_fn(p), setup, [None, C(ev), None])
    _cache[key] = (I, ex)
    return I, ex


def states_of(I, st, v, seen=None):
    """the enum variants a value can have, through the phis that carry it"""
    seen = set() if seen is None else seen
    if v in seen:
        return set()
    seen.add(v)
    n = I.variant_of(st, v) if st is not None else (v.args[1] if v.op == "S" else None)
    if n is not None:
        return {n}
    if v.op == "phi":
        out = set()
        for t in I.phi_in.get(v, {}):
            out |= states_of(I, None, t, seen)
        return out
    return {"?"}


def f(I, e, name):
    return fld(I, e.st, name)


# ------------------------------------------------------------------------------- oracle tables
# (game phase, event) -> {mouse state: (next mouse state, click performed, right-counter correction)}
# click: L left click, R right click, C chord, - nothing.  None = the event is refused.
def table(gs, ev, ms, inb):
    """(next, click, right_delta) | None(refused) ; for in-play and pre-play phases"""
    if gs == "Playing":
        if ev == "mv":
            return (ms, "-", 0)
        if ev == "lc":
            return ({"UpUp": "DownUp", "UpDown": "Chording", "UpDownNotFlag": "ChordingNotFlag", "Undefined": "DownUp"}.get(ms, ms), "-", 0)
        if ev == "lr":
            return {"DownUp": ("UpUp", "L", 0), "Chording": ("UpDown", "C", 0), "ChordingNotFlag": ("UpDown", "C", -1),
                    "DownUpAfterChording": ("UpUp", "-", 0), "Undefined": ("UpUp", "-", 0)}.get(ms, (ms, "-", 0))
        if ev == "rc":
            if ms == "UpUp":
                return ("R?", "R", 0) if inb else ("UpDownNotFlag", "-", 0)
            return ({"DownUp": "Chording", "DownUpAfterChording": "Chording", "Undefined": "UpDown"}.get(ms, ms), "-", 0)
        if ev == "rr":
            return {"UpDown": ("UpUp", "-", 0), "UpDownNotFlag": ("UpUp", "-", 0), "Chording": ("DownUpAfterChording", "C", 0),
                    "ChordingNotFlag": ("DownUpAfterChording", "C", -1), "Undefined": ("UpUp", "-", 0)}.get(ms, (ms, "-", 0))
        if ev == "cc":
            n = {"DownUp": "Chording", "DownUpAfterChording": "Chording", "UpDown": "Chording", "UpDownNotFlag": "ChordingNotFlag"}.get(ms)
            return (n, "-", 0) if n else None
        if ev == "mc":
            return (ms, "-", 0)
        if ev == "mr":
            return (ms, "C", 0)
        if ev == "l":
            return {"UpUp": ("DownUp", "-", 0), "UpDown": ("Chording", "-", 0), "UpDownNotFlag": ("ChordingNotFlag", "-", 0),
                    "DownUp": ("UpUp", "L", 0), "Chording": ("UpDown", "C", 0), "ChordingNotFlag": ("UpDown", "C", -1),
                    "DownUpAfterChording": ("UpUp", "-", 0)}.get(ms)
        if ev == "r":
            return {"UpUp": ("R?", "R", 0), "DownUp": ("Chording", "-", 0), "DownUpAfterChording": ("Chording", "-", 0),
                    "UpDown": ("UpUp", "-", 0), "UpDownNotFlag": ("UpUp", "-", 0), "Chording": ("DownUpAfterChording", "C", 0),
                    "ChordingNotFlag": ("DownUpAfterChording", "C", -1)}.get(ms)
        if ev == "crl":
            return {"Chording": ("UpDown", "C", 0), "ChordingNotFlag": ("UpDown", "C", -1)}.get(ms)
        if ev == "crr":
            return {"Chording": ("DownUpAfterChording", "C", 0), "ChordingNotFlag": ("DownUpAfterChording", "C", -1)}.get(ms)
    if gs == "Ready":
        if ev == "mv":
            return (ms, "-", 0)
        if ev == "lc":
            n = {"UpUp": "DownUp", "UpDown": "Chording", "UpDownNotFlag": "ChordingNotFlag"}.get(ms)
            return (n, "-", 0) if n else None
        if ev == "rc":
            if ms == "UpUp":
                return ("UpDown", "R" if inb else "-", 0)
            return ("Chording", "-", 0) if ms == "DownUpAfterChording" else None
        if ev == "lr":
            n = {"Chording": "UpDown", "ChordingNotFlag": "UpDown", "DownUpAfterChording": "UpUp", "DownUp": "UpUp", "UpUp": "UpUp"}.get(ms)
            return (n, "-", 0) if n else None
        if ev == "rr":
            n = {"UpDown": "UpUp", "Chording": "DownUpAfterChording"}.get(ms)
            return (n, "-", 0) if n else None
        if ev == "cc":
            n = {"DownUp": "Chording", "DownUpAfterChording": "Chording", "UpDown": "Chording", "UpDownNotFlag": "ChordingNotFlag"}.get(ms)
            return (n, "-", 0) if n else None
        if ev == "pf":
            return (ms, "R", 0)
    if gs == "PreFlaging":
        if ev in ("lc", "mv"):
            return table("Playing", ev, ms, inb)
        if ev == "rr":
            return table("Playing", ev, ms, inb)
        if ev == "cc":
            return table("Playing", ev, ms, inb)
        if ev == "rc":
            if ms == "UpUp":
                return ("UpDown", "R", 0) if inb else ("UpDown", "-", 0)
            n = {"DownUp": "Chording", "DownUpAfterChording": "Chording"}.get(ms)
            return (n, "-", 0) if n else None
        if ev == "lr":
            if ms == "DownUp":
                return ("UpUp", "L?", 0)
            if ms in ("UpDown", "UpDownNotFlag"):
                return None
            return table("Playing", ev, ms, inb)
        if ev == "pf":
            return (ms, "R", 0)
    return None


# states the idealised automaton can be in (the others are reached by no sequence of events)
CORE = MS[:7]
EVENTS = {"Playing": ["lc", "lr", "rc", "rr", "cc", "mv", "mc", "mr", "l", "r", "crl", "crr"],
          "Ready": ["lc", "lr", "rc", "rr", "cc", "mv", "pf"],
          "PreFlaging": ["lc", "lr", "rc", "rr", "cc", "mv", "pf"]}
OUT_UNGUARDED = {("mr", None), ("r", "UpUp"), ("pf", None)}


def unguarded(ev, ms):
    return ("mr", None) in OUT_UNGUARDED and ev in ("mr", "pf") or (ev, ms) == ("r", "UpUp")


def cells_for(click):
    return ["open", 10, 11]


def each_core(ck, gs_list=("Playing", "Ready", "PreFlaging")):
    for gs in gs_list:
        for ev in EVENTS[gs]:
            for ms in CORE:
                for inb in (True, False):
                    if not inb and (ev in ("mr", "pf") or (ev, ms) == ("r", "UpUp")):
                        continue
                    yield gs, ev, ms, inb


def where(ck):
    p = prog()
    g = p.fns[step_fn(p)]
    return f"{g.file}:{g.line} step"


def m01(ck):
    ck.rule = ("For every game phase in which input is live, every mouse event, every mouse state and both position classes (on / off the board), "
               "the abstract exits of the step routine carry exactly the successor mouse state of the automaton table; "
               "an event the table refuses is refused without touching the mouse state; unknown event strings are refused.")
    w = where(ck)
    n = 0
    for gs, ev, ms, inb in each_core(ck):
        exp = table(gs, ev, ms, inb)
        cells = [None]
        if exp and exp[0] == "R?":
            cells = ["open", 10, 11]
        elif gs in ("Ready", "PreFlaging") and inb and ev in ("rc", "lr", "pf"):
            cells = [10, 11] if ev != "pf" else [10]
        for cell in cells:
            I, ex = scenario(gs, ms, ev, inb, cell)
            ck.use(I, ex)
            n += 1
            k = f"{gs}/{ev}/{ms}/{'in' if inb else 'out'}/{cell}"
            if not ex:
                ck.fail(k, "no normal exit", w)
                continue
            for e in ex:
                m = variant(I, e.st, f(I, e, "mouse_state"))
                if exp is None:
                    ck.ob(k, is_err(e.val) and m == ms, f"event should be refused leaving {ms}; got {e.val} and {m}", w)
                    continue
                want = exp[0]
                if want == "R?":
                    want = "UpDownNotFlag" if cell == "open" else "UpDown"
                ck.ob(k, m == want and not (is_err(e.val)), f"mouse state {m} instead of {want}, result {e.val}", w)
    # the middle button: pressed, released, or toggled, with the other buttons' state untouched
    HOLD = get_field(SELF, "middle_hold")
    for ms in CORE:
        for ev in EVENTS["Playing"] + ["m"]:
            I, ex = scenario("Playing", ms, ev, True)
            ck.use(I, ex)
            for e in ex:
                v = f(I, e, "middle_hold")
                k = f"Playing/{ev}/{ms}/middle"
                if ev == "m":
                    was = I.ev(e.st, HOLD)
                    now = I.ev(e.st, v)
                    ck.ob(k, was is not None and now is (not was), f"middle button becomes {show(v)} (was {was})", w)
                    ck.ob(k + "/mouse", variant(I, e.st, f(I, e, "mouse_state")) == ms, "the middle button changes the state of the others", w)
                    ck.ob(k + "/click", same(I, e.st, f(I, e, "double"), add(get_field(SELF, "double"), C(1 if was else 0))), "releasing the middle button chords, pressing does not", w)
                else:
                    want = TRUE if ev == "mc" else FALSE if ev == "mr" else HOLD
                    ck.ob(k, same(I, e.st, v, want), f"middle button becomes {show(v)}", w)
    for gs in ("Ready", "PreFlaging", "Playing"):
        for ev in ("", "zz", "lC", "sc"):
            for ms in ("UpUp", "Chording"):
                I, ex = scenario(gs, ms, ev, True)
                ck.use(I, ex)
                for e in ex:
                    ck.ob(f"{gs}/unknown {ev!r}/{ms}", is_err(e.val) and e.st.mem.get(("P", "self")) is not None
                          and same(I, e.st, set_field(set_field(SELF, "game_board_state", enumv("GameBoardState", gs)), "mouse_state", enumv("MouseState", ms)),
                                   e.st.mem[("P", "self")]), f"unknown event accepted: {e.val}", w)
    ck.floor("scenarios", n, 300)


def expect_counter(ck, k, I, e, name, delta, w):
    v = f(I, e, name)
    exp = add(get_field(SELF, name), C(delta))
    ck.ob(f"{k}/{name}", same(I, e.st, v, exp), f"{name} becomes {show(v)}, expected {show(exp)}", w)


def m02(ck):
    ck.rule = ("In play, for every event, mouse state and position class: left, right and double counters change by exactly the amount of the click the automaton "
               "performs (one left click per completed left press, one right click per right press on the board, one double click per chord release, and the "
               "provisional right click taken back when the right press turned out to be part of a chord on an opened cell), and by nothing otherwise.")
    w = where(ck)
    n = 0
    for gs, ev, ms, inb in each_core(ck, ("Playing",)):
        exp = table(gs, ev, ms, inb)
        for cell in ([None] if not inb else ["open", 10, 11]):
            I, ex = scenario(gs, ms, ev, inb, cell)
            ck.use(I, ex)
            n += 1
            k = f"{ev}/{ms}/{'in' if inb else 'out'}/{cell}"
            for e in ex:
                d = {"left": 0, "right": 0, "double": 0}
                if exp:
                    click = exp[1] if inb else "-"
                    d["left"] += click == "L"
                    d["right"] += (click == "R") + exp[2]
                    d["double"] += click == "C"
                for c, dv in d.items():
                    expect_counter(ck, k, I, e, c, int(dv), w)
    # before the game: presses are counted the same way, and returning to the ready phase may clear them
    for gs, ev, ms, inb in each_core(ck, ("Ready", "PreFlaging")):
        exp = table(gs, ev, ms, inb)
        for cell in ([None] if not inb else [10] if ev == "pf" else [10, 11]):
            I, ex = scenario(gs, ms, ev, inb, cell)
            ck.use(I, ex)
            n += 1
            k = f"{gs}/{ev}/{ms}/{'in' if inb else 'out'}/{cell}"
            for e in ex:
                d = {"left": 0, "right": 0, "double": 0}
                back = gs == "PreFlaging" and states_of(I, e.st, f(I, e, "game_board_state")) == {"Ready"}
                if exp:
                    click = exp[1] if inb else "-"
                    d["left"] += click == "L?" and cell == 10
                    d["right"] += (click == "R") + (exp[2] if not back else 0)
                    d["double"] += click == "C"
                for c, dv in d.items():
                    v = f(I, e, c)
                    if back and v is C(0):
                        continue
                    expect_counter(ck, k, I, e, c, int(dv), w)
    ck.floor("scenarios", n, 300)


def m03(ck):
    ck.rule = ("Game phase transitions: Ready is left only by a press (left press on the board or a pre-flag), PreFlaging becomes Playing only by releasing the left button "
               "on a covered cell (or returns to Ready when no pre-flag is left), Playing becomes Loss only when a mine is opened and Win only when the win test on the "
               "opened board succeeds; no other event changes the phase. Every abstract exit of every scenario is compared with that table.")
    w = where(ck)
    n = 0
    R, P, G = "Ready", "PreFlaging", "Playing"
    for gs, ev, ms, inb in each_core(ck):
        exp = table(gs, ev, ms, inb)
        for cell in ([None] if not inb else ["open", 10, 11]):
            if gs != G and cell == "open":
                continue
            if ev == "pf" and cell != 10:
                continue
            for pre0 in ((None,) if gs != P else (True, False)):
                truths = [None]
                click = exp[1] if exp and inb else "-"
                if gs == P and click == "L?":
                    click = "L" if cell == 10 else "-"
                if click == "L" and cell == 10:
                    truths = [-1, 0, "num"]
                for tr in truths:
                    I, ex = scenario(gs, ms, ev, inb, cell, tr, pre0)
                    ck.use(I, ex)
                    n += 1
                    k = f"{gs}/{ev}/{ms}/{'in' if inb else 'out'}/{cell}/{tr}/{pre0}"
                    for e in ex:
                        ss = states_of(I, e.st, f(I, e, "game_board_state"))
                        s = next(iter(ss)) if len(ss) == 1 else None
                        allowed = {gs}
                        if exp is None:
                            pass
                        elif gs == R:
                            if ev == "lc" and ms == "UpUp" and inb:
                                allowed = {P}
                            if ev == "rc" and ms == "UpUp" and inb or ev == "pf":
                                allowed = {P}
                        elif gs == P:
                            if ev == "lr" and ms == "DownUp":
                                if not inb:
                                    allowed = {R} if pre0 else {P}
                                elif cell == 10:
                                    allowed = {"Loss"} if tr == -1 else {G, "Win"}
                            elif ev == "rc" and ms == "UpUp" and inb:
                                if cell == 11:
                                    pz = I.ev(e.st, teq(get_field(SELF, "pre_flag_num"), C(1)))
                                    allowed = {R} if pz is True else {P} if pz is False else {R, P}
                            elif ev in ("rc", "cc") and ms == "DownUp" and inb:
                                allowed = {R} if pre0 else {P}
                            elif click == "C":
                                allowed = {P}   # a chord cannot open anything before the mines are laid
                        else:
                            if click == "L" and cell == 10:
                                allowed = {"Loss"} if tr == -1 else {G, "Win"}
                            elif click == "C" and cell == "open":
                                allowed = {G, "Win", "Loss"}
                        if s == "Win":
                            gbn = f(I, e, "game_board")
                            if click in ("L", "C") and inb:
                                okw = I.ev(e.st, mk("winp", gbn, f(I, e, "board"))) is True
                                ck.ob(k + "/win-test", okw, "Win declared on a path where the win test on the resulting board did not succeed", w)
                        if s == G and click == "L" and cell == 10 and tr in (0, "num"):
                            ck.ob(k + "/no-win", I.ev(e.st, mk("winp", f(I, e, "game_board"), f(I, e, "board"))) is False,
                                  "still playing although the win test on the resulting board was not made or succeeded", w)
                        ck.ob(k, ss <= allowed, f"game state {sorted(ss)}, expected {sorted(allowed)}", w)
    ck.floor("scenarios", n, 500)


def m04(ck):
    ck.rule = ("For each finished phase (Win, Loss, Display), with every other input left symbolic (any event string, any position, any mouse state), every abstract exit of "
               "the step routine returns Ok(0) and leaves the whole machine state as it was.")
    w = where(ck)
    p = prog()
    for gs in ("Win", "Loss", "Display"):
        for ev in ("lc", "lr", "rc", "rr", "cc", "mc", "mr", "mv", "pf", "l", "r", "m", "crl", "crr", None):
            I = Interp(p)

            def setup(st, I, gs=gs):
                setfld(I, st, ("game_board_state",), enumv("GameBoardState", gs))
                return st
            ex = I.analyse(step_fn(p), setup, [None, C(ev) if ev else None, None])
            ck.use(I, ex)
            ck.ob(f"{gs}/{ev}/exits", len(ex) >= 1, "no exit", w)
            for e in ex:
                me = e.st.mem.get(("P", "self"))
                want = set_field(SELF, "game_board_state", enumv("GameBoardState", gs))
                ck.ob(f"{gs}/{ev}", same(I, e.st, me, want) and okv(e.val) is C(0), f"finished game reacts: {e.val}; {show(me)[:200]}", w)


def flag_expect(ck, k, I, e, cell, truth, w):
    fl = f(I, e, "flag")
    gb = f(I, e, "game_board")
    nc = select(select(gb, X), Y)
    if cell == "open":
        ck.ob(k + "/opened", same(I, e.st, gb, GB0) and same(I, e.st, fl, get_field(SELF, "flag")), f"right click changes an opened cell: {show(gb)[:200]}", w)
    else:
        d = 1 if cell == 10 else -1
        want = store(GB0, X, store(select(GB0, X), Y, C(11 if cell == 10 else 10)))
        ck.ob(k + "/cell", gb is want, f"board after flagging is {show(gb)[:200]}, expected {show(want)}", w)
        ck.ob(k + "/flag", same(I, e.st, fl, add(get_field(SELF, "flag"), C(d))), f"flag count becomes {show(fl)}", w)


def m05(ck):
    ck.rule = ("A right click in play on a covered cell marks exactly that cell and adds one to the flag count, on a marked cell unmarks exactly that cell and subtracts one, "
               "on an opened cell changes neither board nor flag count; the useful-click count rises by one exactly when a mine is marked that was never marked before; "
               "no other event of the vocabulary changes the flag count or puts a mark.")
    w = where(ck)
    n = 0
    for gs, ev, ms in (("Playing", "rc", "UpUp"), ("Playing", "r", "UpUp"), ("Ready", "rc", "UpUp"), ("Ready", "pf", "UpUp"), ("PreFlaging", "rc", "UpUp"), ("PreFlaging", "pf", "UpUp")):
        for cell in ("open", 10, 11):
            if gs != "Playing" and (cell == "open" or (cell == 11 and (gs == "Ready" or ev == "pf"))):
                continue
            for tr in (-1, "safe"):
                I, ex = scenario(gs, ms, ev, True, cell, tr)
                ck.use(I, ex)
                n += 1
                k = f"{gs}/{ev}/{cell}/{tr}"
                ck.ob(k + "/exits", len(ex) > 0, "no exit", w)
                for e in ex:
                    if gs == "PreFlaging" and cell == 11 and variant(I, e.st, f(I, e, "game_board_state")) == "Ready":
                        # last pre-flag taken back: everything is as before the game
                        ck.ob(k + "/back", f(I, e, "flag") is C(0) and select(select(f(I, e, "game_board"), X), Y) is C(10), "pre-flag not withdrawn", w)
                        continue
                    flag_expect(ck, k, I, e, cell, tr, w)
                    ce = f(I, e, "ce")
                    fl0 = get_field(SELF, "flagedList")
                    key = S("tuple", None, {"0": X, "1": Y})
                    seen = I.ev(e.st, mk("contains", fl0, key))
                    if cell == 10 and tr == -1:
                        ck.ob(k + "/known", seen is not None, "first-time marking of a mine is not distinguished", w)
                        ck.ob(k + "/ce", same(I, e.st, ce, add(get_field(SELF, "ce"), C(0 if seen else 1))), f"useful-click count becomes {show(ce)} (marked before: {seen})", w)
                        lst = f(I, e, "flagedList")
                        ck.ob(k + "/remember", seen is True or (lst.op == "push" and lst.args[1] is key and lst.args[0] is fl0), "a marked mine is not remembered", w)
                        ck.ob(k + "/list", lst is fl0 or (lst.op == "push" and lst.args[1] is key and lst.args[0] is fl0), f"the list of marked mines becomes {show(lst)[:200]}", w)
                    else:
                        ck.ob(k + "/ce", same(I, e.st, ce, get_field(SELF, "ce")), f"useful-click count becomes {show(ce)}", w)
                        ck.ob(k + "/list", same(I, e.st, f(I, e, "flagedList"), fl0), f"the list of marked mines becomes {show(f(I, e, 'flagedList'))[:200]}", w)
    for gs, ev, ms, inb in each_core(ck, ("Playing",)):
        exp = table(gs, ev, ms, inb)
        if exp and exp[1] == "R" and inb:
            continue
        for cell in ([None] if not inb else ["open", 10, 11]):
            I, ex = scenario(gs, ms, ev, inb, cell)
            ck.use(I, ex)
            n += 1
            for e in ex:
                k = f"noflag/{ev}/{ms}/{inb}/{cell}"
                ck.ob(k, same(I, e.st, f(I, e, "flag"), get_field(SELF, "flag")), f"flag count becomes {show(f(I, e, 'flag'))}", w)
                ck.ob(k + "/list", same(I, e.st, f(I, e, "flagedList"), get_field(SELF, "flagedList")), "the list of marked mines changes", w)
                gb = f(I, e, "game_board")
                ck.ob(k + "/board", gb is GB0 or gb.op == "opened", f"board changed other than by opening: {show(gb)[:200]}", w)
    ck.floor("scenarios", n, 150)


def chord_scn(cellmode):
    """exits of a chord release in play"""
    out = []
    for ev, ms in (("lr", "Chording"), ("rr", "Chording"), ("lr", "ChordingNotFlag"), ("rr", "ChordingNotFlag"), ("mr", "UpUp"), ("crl", "Chording"), ("crr", "Chording")):
        out.append((f"{ev}/{ms}", *scenario("Playing", ms, ev, True, cellmode, split=True)))
    return out


def m06(ck):
    from props.utilities import u01
    u01(ck)       # the opening routine itself
    ck.rule = ("A chord release on an opened number opens cells only on paths where the counted marks equal the number; the count ranges over exactly the clipped 3x3 window and "
               "counts cells showing a mark, the cells handed to the opening routine are exactly the covered unmarked cells of the window; Loss exactly when one of them is a mine "
               "(the win test may follow); on every other path, and on covered, marked, empty cells, only the double counter changes.")
    w = where(ck)
    n = 0
    for cell in (0, 8, 10, 11):
        for k, I, ex in chord_scn(cell):
            ck.use(I, ex)
            n += 1
            ck.ob(f"{k}/{cell}/exits", len(ex) > 0, "no exit", w)
            for e in ex:
                unchanged(ck, f"{k}/{cell}", I, e, w)
    for num in range(1, 8):
        for k, I, ex in chord_scn(num):
            ck.use(I, ex)
            n += 1
            eff = [e for e in ex if f(I, e, "game_board") is not GB0]
            ck.ob(f"{k}/{num}/effective", len(eff) > 0, "no path opens anything", w)
            for e in ex:
                gb = f(I, e, "game_board")
                if gb is GB0:
                    unchanged(ck, f"{k}/{num}/idle", I, e, w)
                    ck.ob(f"{k}/{num}/idle-code", okv(e.val) is C(0), f"result {e.val}", w)
                    ck.ob(f"{k}/{num}/idle-reason", idle_reason(ck, f"{k}/{num}", I, e.st, num, w),
                          "a chord is ignored on a path where neither a wrong number of marks nor an empty list of cells was established", w)
                    continue
                kk = f"{k}/{num}"
                if not ck.ob(kk + "/opened", gb.op == "opened" and gb.args[0] is BD0 and gb.args[1] is GB0, f"board after chording: {show(gb)[:300]}", w):
                    continue
                cells = gb.args[2]
                cnt = counted_equal(e.st, num)
                if not ck.ob(kk + "/count", cnt is not None, "cells are opened on a path where the number of marks was not compared equal to the cell number", w):
                    continue
                check_count(ck, kk + "/marks", I, cnt, 11, w)
                check_cells(ck, kk + "/cells", I, cells, w)
                s = variant(I, e.st, f(I, e, "game_board_state"))
                ck.ob(kk + "/ce", same(I, e.st, f(I, e, "ce"), add(get_field(SELF, "ce"), C(1))), f"useful clicks become {show(f(I, e, 'ce'))}", w)
                ck.ob(kk + "/nonempty", nonempty_known(I, e.st, cells), "a chord with nothing to open is treated as effective", w)
            check_loss(ck, f"{k}/{num}", I, w, {f(I, e, "game_board").args[2] for e in eff if f(I, e, "game_board").op == "opened"}, num)
    ck.floor("scenarios", n, 70)


def idle_reason(ck, k, I, st, num, w):
    """the path established that the mark count differs from the number, or that nothing is there to open"""
    for t, v in st.facts.items():
        while t.op == "not":
            t, v = t.args[0], not v
        if t.op == "eq" and not v:
            for a, b in (t.args, t.args[::-1]):
                if a.op == "phi" and (b is CELL or b is C(num)):
                    check_count(ck, k + "/idle-marks", I, a, 11, w)
                    return True
        if t.op == "phi" and v is False:
            fam = Family(I, t)
            if fam.init_terms() <= {FALSE, TRUE}:
                for p in fam.phis:
                    for x, sts in I.phi_in.get(p, {}).items():
                        for s in sts:
                            if s is not None and x is not TRUE and any(I.const_of(s, c) is C(10) for i, j, c in find_cell(s, GB0, lambda x: True)
                                                                      if the_phi(i) and the_phi(j)):
                                ck.fail(k + "/idle-flag", "a covered cell is seen without noting that there is something to open", w)
                return True
        if t.op in ("eq", "lt") and mentions(t, lambda x: x.op == "len" and x.args[0].op == "phi"):
            ph = next(x for x in subterms(t) if x.op == "len")
            if I.ev(st, teq(ph, C(0))) is True:
                check_cells(ck, k + "/idle-cells", I, ph.args[0], w)
                return True
    return False


def unchanged(ck, k, I, e, w, but=("left", "right", "double", "mouse_state", "middle_hold")):
    me = e.st.mem.get(("P", "self"))
    ch = []
    for name in ("game_board", "board", "ce", "flag", "bbbv_solved", "row", "column"):
        if not same(I, e.st, get_field(me, name), get_field(SELF, name)):
            ch.append(name)
    if variant(I, e.st, get_field(me, "game_board_state")) != "Playing":
        ch.append("game_board_state")
    ck.ob(k, not ch, f"changes {ch}", w)


def counted_equal(st, num):
    """the phi that counts marks, known equal to the number on this path"""
    c = []
    for t, iv in st.iv.items():
        if t.op == "phi" and iv[0] == "i" and iv[1] == iv[2] == num:
            c.append(t)
    for t, v in st.facts.items():
        if t.op == "eq" and v and CELL in t.args:
            o = t.args[0] if t.args[1] is CELL else t.args[1]
            if o.op == "phi":
                c.append(o)
    return c[0] if c else None


def win_idx(I, st, i, j):
    return window_ok(I, st, i, j, (X, Y), [ROW], [COL])


def find_cell(st, base, pred):
    """a sel(sel(base,i),j) whose value satisfies pred in st -> (i, j)"""
    out = []
    seen = set()
    for t in list(st.facts) + list(st.iv):
        for x in subterms(t):
            if x in seen:
                continue
            seen.add(x)
            if x.op == "sel":
                b, ix = index_chain(x)
                if b is base and len(ix) == 2 and pred(x):
                    out.append((ix[0], ix[1], x))
    return out


def check_count(ck, k, I, phi, mark, w):

    fam = Family(I, phi)
    ck.ob(k + "/init", fam.init_terms() == {C(0)}, f"mark counter starts at {[show(t) for t in fam.init_terms()]}", w)
    ck.ob(k + "/kept", not fam.forgets(), fam.forgets(), w)
    inc = [(d, s) for d, s, _ in fam.steps if d is not C(0)]
    if inc and all(d.op == "phi" for d, _ in inc):
        # row by row: the sum of the rows' counts
        def shows(s, i, j):
            r = I.ev(s, teq(select(select(GB0, i), j), C(mark)))
            return False if r is None and same(I, s, i, X) and same(I, s, j, Y) else r
        why = window_count(I, phi, shows, (X, Y), [ROW], lambda i: [COL])
        ck.ob(k + "/rows", not why, f"marks: {why}", w)
        return
    ck.ob(k + "/step", bool(inc) and all(d is C(1) for d, _ in inc), "marks are not counted one by one", w)
    for d, s in inc:
        hits = [(i, j) for i, j, x in find_cell(s, GB0, lambda x: I.const_of(s, x) is C(mark)) if i is not X or j is not Y]
        good = [h for h in hits if not win_idx(I, s, *h)]
        ck.ob(k + "/which", bool(good), f"counter rises on a path where no cell of the clipped window is known to show {mark}: "
              + str([win_idx(I, s, *h) for h in hits][:2]), w)
    # and a marked cell is never skipped: where the counter stays, the visited cell is not a mark (or is the centre)
    passed_over(ck, k + "/skip", I, [(i, j) for d, s in inc for i, j, x in find_cell(s, GB0, lambda x: I.const_of(s, x) is C(mark)) if not win_idx(I, s, i, j)],
                fam, lambda s, x: I.ev(s, teq(x, C(mark))) is False, "a marked cell of the window is not counted", w)


def passed_over(ck, k, I, pairs, fam, harmless, msg, w):
    """every turn of the cell loop that leaves the variable as it is passes the centre or a cell that does not matter"""
    n = 0
    for i, j in set(pairs):
        h = the_phi(j).args[0]
        for s in turns(I, j):
            for q in fam.phis:
                if q.args[0] == h and at(s, q) is q:
                    n += 1
                    x = select(select(GB0, i), j)
                    ck.ob(k, harmless(s, x) or (same(I, s, i, X) and same(I, s, j, Y)), msg, w)
    ck.ob(k + "/turns", n > 0, "no cell of the window is passed over", w)


def check_cells(ck, k, I, cells, w):
    if cells.op != "phi":
        ck.fail(k, f"opened cells {show(cells)[:100]} are not collected from the window", w)
        return
    fam = Family(I, cells)
    ck.ob(k + "/init", fam.init_terms() <= {mk("veclit")}, "list of opened cells does not start empty", w)
    ck.ob(k + "/kept", not fam.forgets(), fam.forgets(), w)
    ck.ob(k + "/some", bool(fam.pushes), "no cell is collected", w)
    pairs = []
    for el, s in fam.pushes:
        i, j = get_field(el, "0"), get_field(el, "1")
        c = select(select(GB0, i), j)
        ck.ob(k + "/covered", I.const_of(s, c) is C(10), f"a cell not known to be covered and unmarked is opened: {show(el)}", w)
        r = win_idx(I, s, i, j)
        if ck.ob(k + "/window", not r, r, w):
            pairs.append((i, j))
    passed_over(ck, k + "/skip", I, pairs, fam, lambda s, x: I.ev(s, teq(x, C(10))) is False, "a covered unmarked cell of the window is not opened", w)


def nonempty_known(I, st, cells):
    n = I.length(st, cells)
    if I.ev(st, teq(n, C(0))) is False:
        return True
    fam = {p for p in Family(I, cells).phis} if cells.op == "phi" else set()
    # a boolean companion set exactly where a cell is pushed
    for t, v in st.facts.items():
        if t.op == "phi" and v is True:
            ff = Family(I, t)
            if ff.init_terms() <= {FALSE, TRUE}:
                sets = [s for tt, s in ff.inits if tt is TRUE]
                if sets and all(s is not None and any(I.const_of(s, x) is C(10) for _, _, x in find_cell(s, GB0, lambda x: True)) for s in sets):
                    return True
    return False


def mine_noted(I, cells, fl):
    """the truth value fl, false at first, becomes true exactly in those turns of the window scan that put a mine on the list of cells; '' or the reason why not"""
    fam = Family(I, fl)
    lists = Family(I, cells).phis
    ini = {t for q in fam.phis for t, sts in I.phi_in.get(q, {}).items() if not any(x in fam.phis for x in subterms(t)) and not any(x.op == "sel" for x in subterms(t)) and t is not TRUE}
    if ini != {FALSE}:
        return f"starts as {[show(t) for t in ini]}"
    n = 0
    for el, s0 in Family(I, cells).pushes:
        i, j = get_field(el, "0"), get_field(el, "1")
        h = the_phi(j).args[0]
        mine = teq(layout(i, j), C(-1))
        for s in turns(I, j):
            for q in fam.phis:
                if q.args[0] != h:
                    continue
                v = at(s, q)
                L = [z for z in lists if z.args[0] == h]
                put = any(at(s, z) is not z for z in L)
                yes, no = I.assume(s, mine, True), I.assume(s, mine, False)
                n += 1
                if put and yes is not None and I.ev(yes, v) is not True:
                    return "a mine is put on the list without noting it"
                if put and no is not None and not passes(I, no, v, fam.phis):
                    return f"noted as {show(v)} without a mine being put on the list"
                if not put and v is not q:
                    return "noted on a cell that is not put on the list"
    return "" if n else "never noted"


def check_loss(ck, k, I, w, cells=(), num=0):
    """the scan over the opened cells: Loss exactly on those iterations where the cell is a mine, and no cell is left out"""
    lists = {c for c in cells if c.op == "phi"}
    noted = {}

    def flagged(s):
        """what the path knows of a truth value that notes, in the scan that makes the list, whether a mine is put on it"""
        for t, v in s.facts.items():
            if t.op == "phi" and isinstance(v, bool):
                for c in lists:
                    if t.args[0] == c.args[0]:
                        if (t, c) not in noted:
                            noted[t, c] = mine_noted(I, c, t)
                        if not noted[t, c]:
                            return v
        return None
    by_flag, unsure = 0, []
    found = 0
    walks = set()
    lost = lambda s: variant(I, s, get_field(s.mem.get(("P", "self"), SELF), "game_board_state")) == "Loss"
    for phi, ins in I.phi_in.items():
        if not (phi.args[1] == ("P", "self") and phi.args[2] and phi.args[2][-1] == "game_board_state"):
            continue
        for t, sts in ins.items():
            v = t.args[1] if t.op == "S" else None
            for s in sts:
                if s is None:
                    continue
                mines = [x for t2, vv in s.facts.items() for x in [t2] if t2.op == "eq" and t2.args[1] is C(-1) and index_chain(t2.args[0])[0] is BD0]
                fl = flagged(s)
                if fl is not None and t is not phi and t.op != "phi":
                    by_flag += 1
                    found += v == "Loss"
                    ck.ob(k + "/loss", fl is (v == "Loss"), f"the game {'is lost' if v == 'Loss' else 'goes on'} after a chord that {'opens a mine' if fl else 'opens no mine'}", w)
                elif v != "Loss" and t.op != "phi" and counted_equal(s, num) is not None:
                    unsure.append(s)
                elif v == "Loss":
                    found += 1
                    ck.ob(k + "/loss", any(s.facts[x] for x in mines), "Loss without a mine among the opened cells", w)
                    walks |= {(phi, x.args[0]) for x in mines if s.facts[x]}
                elif t.op == "phi" and mines:
                    ck.ob(k + "/loss-missed", not any(s.facts[x] for x in mines), "a mine is opened by chording without losing", w)
    ck.ob(k + "/loss-scan", found > 0, "no path of a chord loses the game", w)
    if by_flag:
        ck.ob(k + "/loss-missed", not unsure, "the game goes on after a chord that may open a mine", w)
    if found and not by_flag:
        ck.ob(k + "/loss-walk", bool(walks), "the cells looked at for mines are not known", w)
    for phi, x in walks:
        b, ix = index_chain(x)
        el = elem_of(ix)
        if not ck.ob(k + "/loss-cell", el is not None and el.op == "sel" and the_phi(el.args[1]) is not None and (not cells or el.args[0] in cells), f"looks at {show(x)[:150]} for mines, not at the opened cells in turn", w):
            continue
        L, q = el.args
        for s in turns(I, q):
            r = full_axis(I, s, q, [mk("len", L)], early=lambda z: lost(z) or I.ev(z, teq(x, C(-1))) is True)
            ck.ob(k + "/loss-all", not r, f"not every opened cell is looked at for mines: {r}", w)
            mine = I.ev(s, teq(x, C(-1)))
            ck.ob(k + "/loss-look", mine is not None or lost(s), "an opened cell is passed without looking whether it is a mine", w)


def elem_of(ix):
    """the list element whose two components index a cell"""
    if len(ix) != 2:
        return None
    for y in subterms(ix[0]):
        if y.op == "sel" and get_field(y, "0") is ix[0] and get_field(y, "1") is ix[1]:
            return y
    return None


def m07(ck):
    ck.rule = ("On every abstract exit of the step routine, for every game phase, mouse state and event with all else symbolic, the mine layout and the dimensions are the ones at "
               "entry; the analysis goes through every callee, so no helper can change them either.")
    w = where(ck)
    n = 0
    for gs in GS:
        for ev in ("lc", "lr", "rc", "rr", "cc", "mc", "mr", "mv", "pf", "l", "r", "m", "crl", "crr"):
            for ms in MS:
                if gs in ("Win", "Loss", "Display") and ms != "UpUp":
                    continue
                I, ex = scenario(gs, ms, ev, None, handlers=(ms in ("DownUp", "UpUp") and gs == "Playing" and False) or True)
                ck.use(I, ex)
                for e in ex:
                    n += 1
                    me = e.st.mem.get(("P", "self"), SELF)
                    for nm in ("board", "row", "column"):
                        ck.ob(f"{gs}/{ev}/{ms}/{nm}", get_field(me, nm) is get_field(SELF, nm), f"{nm} becomes {show(get_field(me, nm))[:200]}", w)
    # the opening routine takes the layout by shared reference and only writes the visible board
    p = prog()
    g = fn_named(p, "utils::refresh_board")
    ck.ob("refresh/shared", g.ty(1).startswith("&") and not g.ty(1).startswith("&mut"), f"layout parameter is {g.ty(1)}", loc(g))
    I = Interp(p)
    ex = I.analyse(g.name)
    ck.use(I, ex)
    for e in ex:
        ck.ob("refresh/layout", e.st.mem.get(("P", "a1"), mk("init", "a1")) is mk("init", "a1"), "the opening routine changes the layout", loc(g))
    # step is the only caller-visible way to play: it takes &mut self; new/reset are the only other writers of the layout
    ck.floor("exits", n, 400)


def m08(ck):
    from props.utilities import u01
    u01(ck)       # the opening routine itself
    ck.rule = ("Completing a left click in play: on a covered unmarked cell the board becomes exactly the result of the opening routine applied to that one cell on the current board, "
               "a mine loses the game without a useful click, a safe cell adds one useful click; on an opened or marked cell nothing but the left counter changes. "
               "Events that complete no click leave the visible board alone.")
    w = where(ck)
    one = mk("veclit", S("tuple", None, {"0": X, "1": Y}))
    n = 0
    for gs, ev, ms in (("Playing", "lr", "DownUp"), ("Playing", "l", "DownUp"), ("PreFlaging", "lr", "DownUp")):
        for cell in ("open", 10, 11):
            if gs == "PreFlaging" and cell != 10:
                continue
            for tr in (-1, 0, "num"):
                I, ex = scenario(gs, ms, ev, True, cell, tr)
                ck.use(I, ex)
                n += 1
                k = f"{gs}/{ev}/{cell}/{tr}"
                ck.ob(k + "/exits", len(ex) > 0, "no exit", w)
                for e in ex:
                    gb = f(I, e, "game_board")
                    ce = f(I, e, "ce")
                    if cell != 10:
                        unchanged(ck, k, I, e, w)
                        continue
                    want = mk("opened", BD0, GB0, one)
                    ck.ob(k + "/board", gb is want, f"board after the click is {show(gb)[:200]}", w)
                    s = variant(I, e.st, f(I, e, "game_board_state"))
                    ck.ob(k + "/ce", same(I, e.st, ce, add(get_field(SELF, "ce"), C(0 if tr == -1 else 1))), f"useful clicks become {show(ce)}", w)
                    ck.ob(k + "/state", s == "Loss" if tr == -1 else s in ("Playing", "Win"), f"state {s}", w)
                    ck.ob(k + "/flag", same(I, e.st, f(I, e, "flag"), get_field(SELF, "flag")), "flag count changes", w)
    for gs, ev, ms, inb in each_core(ck):
        exp = table(gs, ev, ms, inb)
        if exp and inb and exp[1] in ("L", "R", "C", "L?"):
            continue
        for cell in ([None] if not inb else ["open", 10, 11]):
            if gs != "Playing" and cell == "open":
                continue
            I, ex = scenario(gs, ms, ev, inb, cell)
            ck.use(I, ex)
            n += 1
            for e in ex:
                ck.ob(f"idle/{gs}/{ev}/{ms}/{inb}/{cell}", same(I, e.st, f(I, e, "game_board"), GB0), "the visible board changes without a click", w)
    ck.floor("scenarios", n, 150)


def m09(ck):
    ck.rule = ("The win test answers true only after a scan that covers every remaining cell in row-major order and leaves early, with false, on a covered safe cell or an opened cell "
               "showing something else than the layout; it changes nothing but its own scan position, and the scan position only ever points at a covered safe cell.")
    p = prog()
    g = find_is_win(p)
    if g is None:
        raise Infra("win test not found")
    I = Interp(p)
    I.split = lambda n: True
    ex = I.analyse(g.name, lambda st, I: [I.note_ty(get_field(SELF, n), "usize") for n in ("row", "column", "pointer_x", "pointer_y")] and None)
    ck.use(I, ex)
    w = loc(g)
    PX, PY = get_field(SELF, "pointer_x"), get_field(SELF, "pointer_y")
    ck.ob("exits", len(ex) >= 2, "too few exits", w)
    for e in ex:
        me = e.st.mem.get(("P", "self"), SELF)
        ch = {k for k, v in (me.args[3] if me.op == "S" else ())}
        ck.ob("writes", ch <= {"pointer_x", "pointer_y"}, f"win test writes {sorted(ch)}", w)
        if e.val is TRUE:
            ck.ob("true/pure", not ch, "scan position moved on success", w)
        if ch:
            x2, y2 = get_field(me, "pointer_x"), get_field(me, "pointer_y")
            gbv, bdv = select(select(GB0, x2), y2), select(select(BD0, x2), y2)
            ck.ob("pointer/blocked", I.ev(e.st, tlt(gbv, C(10))) is False and I.ev(e.st, teq(bdv, C(-1))) is False and e.val is FALSE,
                  f"scan position moved to a cell not known to be covered and safe", w)
    # loops: every iteration that continues has seen a settled cell; every early leave has seen an unsettled one
    conts = 0

    def settled(z, i, j, x):
        """is the cell settled, unsettled (witness against the win), or untold?"""
        b = select(select(BD0, i), j)
        opened = I.ev(z, tlt(x, C(10)))
        r = I.ev(z, tor(tand(tlt(x, C(10)), teq(x, b)), tand(tnot(tlt(x, C(10))), teq(b, C(-1)))))
        if r is None and opened is not None:
            r = I.ev(z, teq(x, b) if opened else teq(b, C(-1)))
        if r is None and opened is None:
            r = True if I.ev(z, tor(teq(x, b), teq(b, C(-1)))) is True else None
        return r

    def against(z):
        return any(settled(z, i, j, x) is False for i, j, x in find_cell(z, GB0, lambda x: True))
    cov = set()
    firsts, rests = set(), set()
    for key, sts in I.arrivals.items():
        vars_ = {(i, j) for s in sts for i, j, x in find_cell(s, GB0, lambda x: True) if iterates(I, key, j)}
        for s in sts:
            cs = find_cell(s, GB0, lambda x: True)
            for i, j in vars_:
                p_ = the_phi(j)
                if at(s, p_) is None or at(s, p_) is p_ or the_phi(at(s, p_)) is not p_:
                    continue
                conts += 1
                ck.ob("continue/settled", any(settled(s, i2, j2, x) is True for i2, j2, x in cs if i2 is i and j2 is j), "the scan passes a cell that is not known to be settled (opened with its true number, or covered over a mine)", w)
                if i is PX:
                    cov.add(("first", full_axis(I, s, j, [COL], PY, against)))
                    firsts.add(j)
                elif the_phi(i):
                    if from_here(I, s, i, j, PX, PY, against) == "":
                        # one loop over the rows, the first of them from the scan position on
                        cov |= {("first", ""), ("rest", "")}
                        rests.add(i)
                        continue
                    cov.add(("rest", full_axis(I, s, j, [COL], C(0), against) or full_axis(I, s, i, [ROW], add(PX, C(1)), against) or rows_skipped(I, i, axis_done(I, j, [COL]), against, j)))
                    rests.add(i)
                else:
                    cov.add(("?", "scans an unexpected row"))
    ck.ob("coverage/first-row", ("first", "") in cov, f"rest of the current row not scanned fully: {cov}", w)
    ck.ob("coverage/other-rows", ("rest", "") in cov, f"remaining rows not scanned fully: {cov}", w)
    ck.ob("coverage/exact", all(r == "" for _, r in cov), f"{cov}", w)
    for e in ex:
        if e.val is TRUE:
            ck.ob("true/exhausted", all(axis_done(I, j, [COL])(e.st) for j in firsts) and all(axis_done(I, i, [ROW])(e.st) for i in rests), "success is reported before every cell was gone through", w)
        else:
            ck.ob("bool", e.val in (TRUE, FALSE), f"{e.val}", w)
    ck.floor("continuing iterations", conts, 2)


def from_here(I, s, i, j, px, py, against):
    """(i, j) goes through every cell in reading order from (px, py) on"""
    p, q = the_phi(i), the_phi(j)
    if p is None or q is None or p is q:
        return "not two loops"
    r = sub(j, q)
    fam = Family(I, q)
    if {d for d, _, _ in fam.steps if d is not C(0)} != {C(1)}:
        return "columns skipped"
    for t, st in fam.inits:
        for cond, v in cases(add(t, r)):
            first = I.ev(st, teq(i, px)) if st is not None else None
            for c, yes in cond:
                if c is teq(i, px):
                    first = yes
                elif c is teq(px, i):
                    first = yes
            if not (v is py and first is True or v is C(0) and first is False):
                return f"a row starts at {show(v)}"
    if not any(u is COL for u in bounds_on(s, j)[0]):
        return "columns left out"
    return (left_early(I, q, axis_done(I, j, [COL]), against) or full_axis(I, s, i, [ROW], px, against) or rows_skipped(I, i, axis_done(I, j, [COL]), against, j))


def cases(t):
    """a value told apart by the conditions it was chosen by: [(conditions, value)]"""
    if t.op != "ite":
        return [((), t)]
    c, a, b = t.args
    return [(((c, True),) + cs, v) for cs, v in cases(a)] + [(((c, False),) + cs, v) for cs, v in cases(b)]


def iterates(I, key, j):
    p = the_phi(j)
    return p is not None and p.args[0] == key[:2]


def m10(ck):
    ck.rule = ("Resetting a machine writes every field that ordinary play can change back to the value a newly built machine has, and the visible board to all covered cells of the same "
               "dimensions; the fields play can change are read off the step routine's writes, the fresh values off the constructor.")
    p = prog()
    cands = [f for n, f in p.fns.items() if f.item == "reset" and f.impl_self and "MinesweeperBoard<" in f.impl_self]
    news = [f for n, f in p.fns.items() if f.item == "new" and f.impl_self and "MinesweeperBoard<" in f.impl_self]
    if not cands or not news:
        raise Infra("reset/new not found")
    # fields written by play
    played = set()
    for gs in ("Ready", "PreFlaging", "Playing"):
        for ev in ("lc", "lr", "rc", "rr", "cc", "mc", "mr", "m", "pf", "r", "l"):
            for ms in CORE:
                I, ex = scenario(gs, ms, ev, None)
                ck.use(I, ex)
                for e in ex:
                    me = e.st.mem.get(("P", "self"), SELF)
                    for k, v in me.args[3] if me.op == "S" else ():
                        played.add(k)
    played |= {"pointer_x", "pointer_y"}
    ck.notes.append("fields written by play: " + ", ".join(sorted(played)))
    ck.floor("fields written by play", len(played), 12)
    fresh = {}
    for g in news:
        I = Interp(p)
        ex = I.analyse(g.name)
        ck.use(I, ex)
        for e in ex:
            for k in played:
                fresh.setdefault(k, set()).add(get_field(e.val, k))
    for g in cands:
        I = Interp(p)
        ex = I.analyse(g.name)
        ck.use(I, ex)
        for e in ex:
            me = e.st.mem.get(("P", "self"), SELF)
            for k in sorted(played):
                v = get_field(me, k)
                if k == "game_board":
                    ck.ob("reset/game_board", v is mk("from_elem", mk("from_elem", C(10), COL), ROW), f"visible board becomes {show(v)}", loc(g))
                else:
                    ck.ob(f"reset/{k}", v in fresh[k], f"{k} is {show(v)} after reset, {[show(x) for x in fresh[k]]} when new", loc(g))
    for g in news:
        I = Interp(p)
        ex = I.analyse(g.name)
        ck.use(I, ex)
        for e in ex:
            v = get_field(e.val, "game_board")
            r, c = get_field(e.val, "row"), get_field(e.val, "column")
            ck.ob(f"new/{g.impl_self}", v is mk("from_elem", mk("from_elem", C(10), c), r), f"fresh visible board is {show(v)}", loc(g))
            for nm in ("left", "right", "double", "ce", "flag", "bbbv_solved"):
                ck.ob(f"new/{nm}", get_field(e.val, nm) is C(0), f"{nm} starts at {show(get_field(e.val, nm))}", loc(g))
            ck.ob("new/state", variant(I, e.st, get_field(e.val, "game_board_state")) == "Ready" and variant(I, e.st, get_field(e.val, "mouse_state")) == "UpUp",
                  "fresh machine is not ready with both buttons up", loc(g))


def m11(ck):
    ck.rule = ("Completing a left click on a covered cell adds to the solved 3BV: nothing on a mine; on a numbered cell exactly one, on the paths where a scan of the clipped 3x3 window "
               "finished without meeting an empty cell, and nothing where it met one; on an empty cell exactly one where the walk over the whole opening went through to the end without meeting a marked empty cell, else nothing. "
               "Chording adds only counters that start at zero and rise by one on covered cells of the window; no other event changes it.")
    w = where(ck)
    BB = get_field(SELF, "bbbv_solved")
    n = 0
    for gs, ev, ms in (("Playing", "lr", "DownUp"), ("Playing", "l", "DownUp"), ("PreFlaging", "lr", "DownUp")):
        for tr in (-1, 0, "num"):
            I, ex = scenario(gs, ms, ev, True, 10, tr, split=True)
            ck.use(I, ex)
            k = f"{gs}/{ev}/{tr}"
            seen = set()
            for e in ex:
                n += 1
                d = sub(f(I, e, "bbbv_solved"), BB)
                if not ck.ob(k + "/delta", d is C(0) or (d is C(1) and tr != -1), f"solved 3BV changes by {show(d)}", w):
                    continue
                seen.add(d)
                if tr == "num":
                    near = win_some(I, e.st, BD0, (X, Y), [ROW], [COL], lambda v: v == 0)
                    if d is C(0):
                        ck.ob(k + "/skip", near is True, "a numbered cell is not counted although no empty cell of its window was met", w)
                    else:
                        ck.ob(k + "/count", near is False, "a numbered cell is counted although its window was not gone through without meeting an empty cell", w)
                elif tr == 0 and d is C(1):
                    ck.ob(k + "/through", walk_result(I, e.st) is True, "an empty cell is counted before the walk over its opening is through without meeting a mark", w)
                elif tr == 0 and d is C(0):
                    ck.ob(k + "/blocked", walk_result(I, e.st) is False, "an empty cell is not counted on a path that met no marked empty cell", w)
            if tr != -1:
                ck.ob(k + "/both", seen == {C(0), C(1)}, f"solved 3BV changes by {[show(x) for x in seen]} over all paths", w)
            if tr == 0:
                op_flood(ck, k, I, w, (X, Y))
    for num in (1, 7):
        for k, I, ex in chord_scn(num):
            ck.use(I, ex)
            for e in ex:
                n += 1
                d = sub(f(I, e, "bbbv_solved"), BB)
                if f(I, e, "game_board") is GB0:
                    ck.ob(f"{k}/{num}/idle", d is C(0), f"changes by {show(d)}", w)
                    continue
                c, parts = lin_parts(d)
                if not ck.ob(f"{k}/{num}/sum", c == 0 and parts and all(x.op == "phi" and kk == 1 for x, kk in parts.items()), f"changes by {show(d)}", w):
                    continue
                for ph in parts:
                    chord_counter(ck, f"{k}/{num}", I, ph, w)
            op_flood(ck, f"{k}/{num}", I, w, None)
    for gs, ev, ms, inb in each_core(ck):
        exp = table(gs, ev, ms, inb)
        if exp and inb and exp[1] in ("L", "C", "L?"):
            continue
        for cell in ([None] if not inb else ["open", 10, 11]):
            if gs != "Playing" and cell == "open":
                continue
            I, ex = scenario(gs, ms, ev, inb, cell)
            ck.use(I, ex)
            for e in ex:
                n += 1
                v = f(I, e, "bbbv_solved")
                ck.ob(f"idle/{gs}/{ev}/{ms}/{inb}/{cell}", same(I, e.st, v, BB) or v is C(0) and variant(I, e.st, f(I, e, "game_board_state")) == "Ready",
                      f"solved 3BV becomes {show(v)}", w)
    ck.floor("exits", n, 300)


def layout(i, j):
    return select(select(BD0, i), j)


def grids_at(st, i, j, val):
    """boolean two-dimensional grids known to hold val at (i, j)"""
    out = []
    for t, v in st.facts.items():
        if t.op == "sel" and v is val:
            b, ix = index_chain(t)
            if len(ix) == 2 and ix[0] is i and ix[1] is j and b not in (GB0, BD0):
                out.append(b)
    return out


def walk_flag(I, W):
    """the truth values the walk over an opening carries along: (phi, its value before the walk)"""
    out = []
    for p, d in I.phi_in.items():
        if p.args[0] == W.w.args[0]:
            fam = Family(I, p)
            if fam.init_terms() and {C(True), C(False)} & {t for t in d if t not in fam.phis} and all(t in (TRUE, FALSE) or t.op in ("and", "or", "not", "band", "bor") for t in fam.init_terms()):
                ini = [t for t in d if t in (TRUE, FALSE) and any(s in [y for t2, y in W.inits] for s in d[t])]
                if len(set(ini)) == 1:
                    out.append((p, ini[0] is TRUE))
    return out


def walk_result(I, st):
    """True: the walk over an opening is known to have gone through without meeting a mark; False: it is known to have met one"""
    W = Worklist(I)
    if not W.ok:
        return None
    through = I.ev(st, teq(mk("len", W.w), C(0))) is True
    for p, v0 in walk_flag(I, W):
        v = I.ev(st, p)
        if v is not None and through:
            return v is v0
    return None


def passes(I, st, t, phis):
    """t is one of the loop variables, or it joined with what is known not to matter"""
    if t in phis:
        return True
    if t.op in ("and", "or", "band", "bor") and len(t.args) == 2:
        neutral = t.op in ("and", "band")
        return any(passes(I, st, a, phis) and I.ev(st, b) is neutral for a, b in (t.args, t.args[::-1]))
    return False


def op_flood(ck, k, I, w, start):
    """the walk over one opening: pending cells spread from empty cells to the whole clipped window, visited cells are remembered, marked empty cells met are remembered"""
    W = Worklist(I)
    if not ck.ob(k + "/walk", W.ok and W.item is not None and not W.other, f"the walk over an opening was not found ({len(W.heads)} candidate lists)", w):
        return
    ci, cj = get_field(W.item, "0"), get_field(W.item, "1")
    grids = set()
    marked = teq(select(select(GB0, ci), cj), C(11))

    def wanted(s, i, j):
        return I.const_of(s, layout(ci, cj)) is C(0)

    def unwanted(s, i, j):
        g = grids_at(s, i, j, True)
        grids.update(g)
        return bool(g)

    def stops(s):
        return I.ev(s, teq(layout(ci, cj), C(0))) is False or I.ev(s, tlt(C(0), layout(ci, cj))) is True
    flood_pushes(ck, k + "/walk", I, W, (ci, cj), ([ROW], [COL]), wanted, unwanted, w, stops)
    for t, s in W.inits:
        x = t.args[0] if t.op == "veclit" and len(t.args) == 1 else None
        i, j = (get_field(x, "0"), get_field(x, "1")) if x is not None else (None, None)
        if start:
            ck.ob(k + "/walk-start", (i, j) == start, f"the walk starts at {show(t)}", w)
        else:
            ck.ob(k + "/walk-start", i is not None and not win_idx(I, s, i, j), f"the walk starts at {show(t)}, not at a cell of the window", w)
    for g in grids:
        cs = Cells(I, g)
        for b, _ in cs.bases:
            ck.ob(k + "/visited/fresh", b is mk("from_elem", mk("from_elem", FALSE, COL), ROW), f"the record of visited cells starts as {show(b)}", w)
        for i, j, v, s in cs.writes:
            ck.ob(k + "/visited/mark", v is TRUE and i is ci and j is cj, f"the record of visited cells gets {show(v)} at ({show(i)},{show(j) if j is not None else '-'})", w)
    # marks met
    fl = walk_flag(I, W)
    if not ck.ob(k + "/marks", len(fl) == 1, f"{len(fl)} truth values remember whether a mark was met", w):
        return
    p, v0 = fl[0]
    fam = Family(I, p)
    head = p.args[0]
    sides = {"before": [], "after": []}
    for q in fam.phis:
        for t, sts in I.phi_in.get(q, {}).items():
            for s in sts:
                if s is None or any(s is y for _, y in W.inits) or t is q and q is not p:
                    continue
                got = {}
                for m in (True, False):
                    s2 = I.assume(s, marked, m)
                    s2 = I.assume(s2, teq(layout(ci, cj), C(0)), True) if s2 is not None else None
                    if s2 is not None:
                        r = I.ev(s2, t)
                        got[m] = "set" if r is (not v0) else "clear" if r is v0 else "same" if passes(I, s2, t, fam.phis) else "?"
                calm = I.assume(s, marked, False)
                if calm is not None and I.ev(calm, t) is (not v0):
                    ck.fail(k + "/marks/only", "a mark is remembered where none was met", w)
                other = I.assume(s, teq(layout(ci, cj), C(0)), False)
                if other is not None and I.ev(other, t) is (not v0):
                    ck.fail(k + "/marks/only", "a mark on a cell that is not empty counts", w)
                ck.ob(k + "/marks/kept", "clear" not in got.values() and "?" not in got.values(), f"a mark met is forgotten: {show(t)}", w)
                if t is p or q is p:
                    entering = q is not p
                    direct = t is p and q is p
                    ok = got.get(True) in (None, "set")
                    for side in ("before", "after"):
                        if direct or (side == "before") is entering:
                            sides[side].append(ok)
    ck.ob(k + "/marks/all", any(x and all(x) for x in sides.values()), "a mark met on an empty cell of the opening is not always remembered", w)


def chord_counter(ck, k, I, ph, w):
    """one of the counters a chord adds: starts at zero, rises by one exactly on covered cells of the window that are an isolated number or start an unvisited, unblocked opening"""
    fam = Family(I, ph)
    ck.ob(k + "/init", fam.init_terms() == {C(0)}, "counter does not start at zero", w)
    ck.ob(k + "/kept", not fam.forgets(), fam.forgets(), w)
    pairs = set()
    for dd, s, b in fam.steps:
        cov = [(i, j) for i, j, x in find_cell(s, GB0, lambda x: I.const_of(s, x) is C(10)) if not win_idx(I, s, i, j)]
        if dd is C(0):
            continue
        cov += listed(ck, k, I, s, w)
        if not ck.ob(k + "/rise", dd is C(1) and bool(cov), f"solved 3BV rises by {show(dd)} on a cell not known to be a covered cell of the window", w):
            continue
        for i, j in cov:
            l = layout(i, j)
            if I.ev(s, tlt(l, C(1))) is False:
                ck.ob(k + "/number", win_some(I, s, BD0, (i, j), [ROW], [COL], lambda v: v == 0) is False, "a number is counted although its window was not gone through without meeting an empty cell", w)
                pairs.add((i, j, "number"))
            elif I.const_of(s, l) is C(0):
                gs = grids_at(s, i, j, False)
                ck.ob(k + "/opening-new", bool(gs), "an opening is counted without knowing that it was not visited before in this chord", w)
                for g in gs:
                    cs = Cells(I, g)
                    ck.ob(k + "/opening-record", bool(cs.writes) and all(b is mk("from_elem", mk("from_elem", FALSE, COL), ROW) for b, _ in cs.bases), "no record of the openings visited in this chord", w)
                ck.ob(k + "/opening-through", walk_result(I, s) is True, "an opening is counted before the walk over it is through without meeting a mark", w)
                pairs.add((i, j, "opening"))
            else:
                ck.fail(k + "/which", "solved 3BV rises on a cell not known to be a number or empty", w)
    # the cells passed over
    for i, j, kind in pairs:
        l = layout(i, j)
        up = [s for dd, s, _ in fam.steps if dd is C(1) and s is not None]
        el = elem_of((i, j))
        if el is not None:
            # the covered cells of the window, collected before
            j = el.args[1]
        else:
            r = window_ok(I, up[0], i, j, (X, Y), [ROW], [COL])
            ck.ob(k + "/window", not r, f"not every cell of the window is looked at: {r}", w)
        h = the_phi(j).args[0]
        for s in turns(I, j):
            if el is not None:
                i, j = get_field(el, "0"), get_field(el, "1")
            if not any(q.args[0] == h and at(s, q) is q for q in fam.phis):
                continue
            cell = select(select(GB0, i), j)
            if I.ev(s, teq(cell, C(10))) is False or same(I, s, i, X) and same(I, s, j, Y):
                continue
            if kind == "number":
                ok = I.ev(s, tlt(C(0), l)) is False or I.ev(s, teq(l, C(0))) is True or win_some(I, s, BD0, (i, j), [ROW], [COL], lambda v: v == 0) is True
                ck.ob(k + "/number-skip", ok, "a covered number of the window is passed over although no empty neighbour was met", w)
            else:
                ok = I.ev(s, teq(l, C(0))) is False or I.ev(s, tlt(C(0), l)) is True or bool(grids_at(s, i, j, True)) or walk_result(I, s) is False
                ck.ob(k + "/opening-skip", ok, "an opening of the window is passed over although it was not visited before and no mark was met in it", w)


def listed(ck, k, I, s, w):
    """the cells visited by a pass over the whole list of the covered cells of the window"""
    out = []
    for i, j, _ in find_cell(s, BD0, lambda x: True):
        el = elem_of((i, j))
        if el is None or the_phi(el.args[1]) is None:
            continue
        L, m = el.args
        if L.op == "phi" and not full_axis(I, s, m, [mk("len", L), I.length(s, L)]) and (i, j) not in out:
            check_cells(ck, k + "/cells", I, L, w)
            out.append((i, j))
    return out


def m12(ck):
    ck.rule = ("In play every accepted event returns 0, 1, 2 or 3: 1 exactly when a mark was put or taken, 2 exactly when a left click opened safe cells, 3 exactly when a chord opened "
               "cells, 0 when the board did not change or a mine was hit by a left click.")
    w = where(ck)
    n = 0
    for gs, ev, ms, inb in each_core(ck, ("Playing",)):
        exp = table(gs, ev, ms, inb)
        for cell in ([None] if not inb else ["open", 10, 11]):
            for tr in ([None] if cell != 10 else [-1, 0, "num"]):
                I, ex = scenario(gs, ms, ev, inb, cell, tr)
                ck.use(I, ex)
                n += 1
                k = f"{ev}/{ms}/{'in' if inb else 'out'}/{cell}/{tr}"
                for e in ex:
                    if exp is None:
                        ck.ob(k, is_err(e.val), f"{e.val}", w)
                        continue
                    gb = f(I, e, "game_board")
                    click = exp[1] if inb else "-"
                    r = okv(e.val)
                    want = 0
                    if gb is not GB0:
                        want = {"L": 0 if tr == -1 else 2, "R": 1, "C": 3}.get(click)
                    ck.ob(k, r is not None and r is C(want), f"result {e.val}, expected Ok({want})", w)
    ck.floor("scenarios", n, 300)
