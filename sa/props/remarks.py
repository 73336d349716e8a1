"""What analyse_for_features writes beside the events of a replay."""
import itertools
import math
from turns import *
from props.foreign import *

LEVEL = "ms_toollib::board::GameBoard::"
BOARD = ("poss", "basic_not_mine", "basic_is_mine", "enum_not_mine", "enum_is_mine")
PIX = 16
NAMES = ("high_risk_guess", "jump_judge", "needless_guess", "mouse_trace", "vision_transfer", "survive_poss", "super_fl_local")
REC, STREAM, CELL = "video_action_state_recorder", "game_board_stream", "cell_pixel_size"


def pure_board(nm):
    def h(I, st, ci, a):
        return [(st, mk("ref", mk("gb", nm, I.deep(st, a[0]))))]
    return h


# ---- which analysis a name asks for ---------------------------------------------------------------

class Named:
    """one turn of analyse_for_features: the analysis that the name at hand asks for, and no other, is applied"""
    calls = {}

    def __init__(self, args, fns):
        self.args = args
        self.calls = {"&" + f.split("::")[-1]: (lambda *a, f=f: list(a[0]) + [f]) for f in fns}
        self.parts = {"i": lambda s, w: s["i"], "rest": lambda s, w: w["names"][s["i"]:], "video": lambda s, w: s["done"], "length": lambda s, w: len(w["names"])}

    def atoms(self, w):
        return {self.args[0]: [], self.args[1]: w["names"]}

    def start(self, w):
        return {"i": 0, "done": []}

    def more(self, s, w):
        return s["i"] < len(w["names"])

    def turn(self, s, w):
        f = w["table"].get(w["names"][s["i"]])
        return {"i": s["i"] + 1, "done": s["done"] + ([f] if f else [])}

    def result(self, s, w):
        return [s["done"]]

    def tell(self, w):
        return f"the names {w['names']}"


class Quiet:
    """obligations another property answers for"""
    ob = lambda self, key, ok, detail="", where="": ok
    use = lambda self, I, ex=(): None


def asked(ck, p, nm):
    f = dispatch(Quiet(), p).get(nm)
    ck.ob(f"{nm}/asked", f is not None, "no analysis answers to the name")
    return f


def dispatch(ck, p):
    g = fn_named(p, "analyse_for_features", "BaseVideo")
    w = wh(g)
    fns = [f for f in p.fns if f.split("::")[-1].startswith("analyse_") and f != g.name and "analyse_methods" in f]
    I = Interp(p, opaque=fns)
    I.split = lambda n: True
    ex = I.analyse(g.name)
    ck.use(I, ex)
    table = {}
    names = mk("init", "a2")
    # the function a name leads to is read off the paths; that it is the one the name stands for is judged by what that function does
    for s in [s for k, ss in I.arrivals.items() for s in ss]:
        for f in s.facts:
            if s.facts[f] and f.op == "eq" and any(is_c(x) and isinstance(x.args[0], str) for x in f.args):
                nm = [x.args[0] for x in f.args if is_c(x)][0]
                v = s.mem.get(("P", "self"))
                if v is not None and v.op == "eff":
                    table.setdefault(nm, set()).add(v.args[0])
    out = {}
    for nm in NAMES:
        c = table.get(nm, set())
        if ck.ob(f"{nm}/asked", len(c) == 1, f"{nm} leads to {sorted(c)}", w):
            out[nm] = next(iter(c))
    ck.ob("names", set(table) == set(NAMES), f"names understood: {sorted(table)}", w)
    ck.ob("apart", len(set(out.values())) == len(out), f"one analysis answers to two names: {out}", w)
    heads = {k[:2] for k in I.arrivals}
    if not ck.ob("one-loop", len(heads) == 1 and len(ex) >= 1, f"{len(heads)} loops over the names", w):
        return {}
    spec = Named((SELF, names), fns)
    t = Turns(I, next(iter(heads)), spec)
    every = list(NAMES) + ["anything else"]
    worlds = [{"names": [a, b], "table": out} for a in every for b in every]
    samples = [(s, w_) for w_ in worlds for s in ({"i": 0, "done": []}, {"i": 1, "done": ["before"]}, {"i": 2, "done": ["before", "then"]})]
    roles, msg = t.match(worlds, samples)
    if ck.ob("in-order", roles is not None, msg or "", w):
        ends = [x for x in samples if not spec.more(*x)]
        m = t.leaves(ex, roles, ends, lambda e: [e.st.mem.get(("P", "self"), SELF)]) or t.early(ex, roles, samples)
        ck.ob("all-of-them", m is None, m or "", w)
    return out


# ---- the analyses ----------------------------------------------------------------------------------

def event(x=0, y=0, mouse="mv", level=0, prior=0, state="UpUp", comments="", tag=0):
    return {"x": x, "y": y, "mouse": mouse, "useful_level": level, "prior_game_board_id": prior, "mouse_state": state, "comments": comments, "": tag}


def at_cell(r, c, **k):
    return event(x=c * PIX + 5, y=r * PIX + 11, **k)


def board(poss=0.25, here=(2, 1), **sets):
    """a board as the analyses see it; every other cell says the opposite"""
    other = [(r, c) for r in range(4) for c in range(4) if (r, c) != here]
    b = {"poss": [[poss if (r, c) == here else (0.125 if poss >= 0.51 or poss in (0.0, 1.0) else 0.875) for c in range(4)] for r in range(4)], "": "board"}
    for nm in BOARD[1:]:
        b[nm] = [here] if sets.get(nm) else list(other)
    return b


def remarked(events, i, text):
    out = [dict(e) for e in events]
    if text:
        out[i]["comments"] += text
    return out


class Analysis:
    """an analysis goes through the events once, from `first`"""
    first = 0
    calls = {}

    def __init__(self, root):
        self.root = root

    def atoms(self, w):
        return {self.root: {REC: w["events"], STREAM: w["stream"], CELL: PIX, "": "video"}}

    parts = {"i": lambda s, w: s["i"], "events": lambda s, w: s["events"], "video": lambda s, w: {REC: s["events"], STREAM: w["stream"], CELL: PIX, "": "video"}}

    def start(self, w):
        return {"i": self.first, "events": w["events"]}

    def more(self, s, w):
        return s["i"] < len(w["events"])

    def turn(self, s, w):
        i = s["i"]
        return {"i": i + 1, "events": remarked(s["events"], i, self.remark(s["events"][i], w))}

    def result(self, s, w):
        return [{REC: s["events"], STREAM: w["stream"], CELL: PIX, "": "video"}]

    def tell(self, w):
        return w.get("what", "")


def seen(e, w):
    b = w["stream"][e["prior_game_board_id"]]
    r, c = e["y"] // PIX, e["x"] // PIX
    return b, (r, c)


class Risky(Analysis):
    first = 2

    def remark(self, e, w):
        b, (r, c) = seen(e, w)
        p = b["poss"][r][c]
        if e["useful_level"] >= 2 and p >= 0.51:
            return f"error: 危险的猜雷(猜对概率{1.0 - p:.3f});"


class Hard(Analysis):
    first = 2

    def remark(self, e, w):
        b, at_ = seen(e, w)
        if e["useful_level"] >= 2 and e["mouse"] == "lr" and at_ not in b["basic_not_mine"] and at_ in b["enum_not_mine"]:
            return "feature: 高难度的判雷(左键);"
        if e["useful_level"] == 1 and e["mouse"] == "rc" and at_ not in b["basic_is_mine"] and at_ in b["enum_is_mine"]:
            return "feature: 高难度的判雷(标雷);"


class Needless(Analysis):
    first = 2

    def remark(self, e, w):
        b, at_ = seen(e, w)
        if e["useful_level"] >= 2 and e["mouse"] == "lr" and b["poss"][at_[0]][at_[1]] > 0 and at_ not in b["basic_not_mine"] and at_ not in b["enum_not_mine"]:
            return "warning: 可以判雷时选择猜雷;"


def guess_samples(first):
    worlds, samples = [], []
    for mouse, level, p, *sets in itertools.product(("lr", "rc", "rr", "mv", "lc"), (0, 1, 2, 3, 4), (0.0, 0.3, 0.5099, 0.51, 0.9, 1.0), *[(0, 1)] * 4):
        d = dict(zip(BOARD[1:], sets))
        here = board(p, **d)
        decoy = board(1.0 - p if p != 0.5099 else 0.9, **{k: 1 - v for k, v in d.items()})
        ev = [at_cell(2, 1, mouse=mouse, level=level, prior=1, comments="a;", tag=i) for i in range(4)]
        ev[1]["comments"] = ""
        w = {"events": ev, "stream": [decoy, here, decoy], "what": f"{mouse}, useful level {level}, chance of a mine {p}, {d}"}
        if len(samples) % 40 == 0:
            worlds.append(w)
        samples.append(({"i": 2, "events": ev}, w))
    for w in worlds:
        samples += [({"i": 3, "events": w["events"]}, w), ({"i": 4, "events": w["events"]}, w)]
    return worlds, samples


class Chance(Analysis):
    """the chance of opening every cell that was opened at a risk"""
    parts = {**Analysis.parts, "begun": lambda s, w: s["begun"], "chance": lambda s, w: s["chance"],
             "text": lambda s, w: "luck: " + "".join(f"{x:.3f} * " for x in s["odds"]), "odds": lambda s, w: s["odds"],
             "list": lambda s, w: "".join(f"{x:.3f} * " for x in s["odds"]), "joined": lambda s, w: " * ".join(f"{x:.3f}" for x in s["odds"]),
             "texts": lambda s, w: [f"{x:.3f}" for x in s["odds"]], "count": lambda s, w: len(s["odds"]), "any": lambda s, w: len(s["odds"]) > 0,
             "not begun": lambda s, w: not s["begun"]}

    def start(self, w):
        return {"i": 0, "events": w["events"], "begun": False, "chance": 1.0, "odds": []}

    def turn(self, s, w):
        e = s["events"][s["i"]]
        s = dict(s, i=s["i"] + 1)
        if e["mouse"] == "lr" and e["useful_level"] > 0:
            if not s["begun"]:
                return dict(s, begun=True)
            b, (r, c) = seen(e, w)
            p = b["poss"][r][c]
            if 0 < p < 1:
                s.update(chance=s["chance"] * (1.0 - p), odds=s["odds"] + [1.0 - p])
        return s

    def result(self, s, w):
        t = "luck: " + (" * ".join(f"{x:.3f}" for x in s["odds"]) + f" = {s['chance']:.6f};" if s["odds"] else "1;")
        return [{REC: remarked(s["events"], len(s["events"]) - 1, t), STREAM: w["stream"], CELL: PIX, "": "video"}]


def chance_samples():
    worlds, samples = [], []
    for mouse, level, p, begun, odds in itertools.product(("lr", "rc", "rr", "mv", "lc"), (0, 1, 2, 3), (0.0, 0.001, 0.3, 0.75, 1.0), (False, True), ([], [0.5], [0.8, 0.6])):
        if odds and not begun:
            continue
        ev = [at_cell(2, 1, mouse=mouse, level=level, prior=1, comments="a;", tag=i) for i in range(3)]
        w = {"events": ev, "stream": [board(0.4), board(p), board(0.6)], "what": f"{mouse}, useful level {level}, chance of a mine {p}"}
        s = {"i": 1, "events": ev, "begun": begun, "chance": math.prod(odds), "odds": odds}
        worlds.append(w)
        samples += [(s, w), (dict(s, i=2), w), (dict(s, i=3), w)]
    return worlds[::30], samples


class Winding(Analysis):
    """how much longer the way of the mouse from click to click is than the straight line"""
    parts = {**Analysis.parts, "from": lambda s, w: s["from"], "way": lambda s, w: s["way"],
             **{"last " + k: (lambda s, w, k=k: s["last"][k]) for k in "xy"}, **{"click " + k: (lambda s, w, k=k: s["click"][k]) for k in "xy"},
             **{"raw last " + k: (lambda s, w, k=k: int(s["last"][k])) for k in "xy"}, **{"raw click " + k: (lambda s, w, k=k: int(s["click"][k])) for k in "xy"},
             "before": lambda s, w: max(s["i"] - 1, 0)}

    def start(self, w):
        e = w["events"][0]
        p = {"x": float(e["x"]), "y": float(e["y"])}
        return {"i": 0, "events": w["events"], "from": 0, "way": 0.0, "last": p, "click": p}

    def turn(self, s, w):
        i = s["i"]
        e = s["events"][i]
        now = {"x": float(e["x"]), "y": float(e["y"])}
        far = lambda a: math.sqrt((a["x"] - now["x"]) ** 2 + (a["y"] - now["y"]) ** 2)
        way = s["way"] + far(s["last"])
        s = dict(s, i=i + 1, last=now, way=way)
        if e["mouse"] in ("lr", "rc", "rr"):
            k = ratio_of(way, far(s["click"]))
            t = f"error: 过于弯曲的鼠标轨迹({display(k * 100.0, 0)}%);" if k > 7 else f"warning: 弯曲的鼠标轨迹({display(k * 100.0, 0)}%);" if k > 3.5 else ""
            s.update(events=remarked(s["events"], s["from"], t), click=now, way=0.0)
            s["from"] = i
        return s


def winding_samples():
    worlds, samples = [], []
    pts = [(40, 60), (46, 52), (40, 53), (41, 60)]
    for mouse, now, last, click, k in itertools.product(("lr", "rc", "rr", "mv", "lc", "mc", "pf"), pts[:3], pts, pts, (0.0, 1.0, 3.49, 3.51, 6.9, 7.1, 100.0)):
        far = lambda a, b: math.dist(a, b)
        way = max(k * far(click, now) - far(last, now), 0.0)
        mk_ = lambda q, tag, m="mv": event(x=q[0], y=q[1], mouse=m, comments="a;" if tag % 2 else "", tag=tag)
        ev = [mk_((7, 9), 0), mk_(click, 1, "lr"), mk_(last, 2), mk_(now, 3, mouse), mk_((90, 9), 4)]
        w = {"events": ev, "stream": [], "what": f"{mouse} at {now}, {k} times the straight line"}
        s = {"i": 3, "events": ev, "from": 1, "way": way, "last": {"x": float(last[0]), "y": float(last[1])}, "click": {"x": float(click[0]), "y": float(click[1])}}
        if len(samples) % 50 == 0:
            worlds.append(w)
        samples.append((s, w))
    for w in worlds:
        samples.append((dict(samples[0][0], i=5, events=w["events"]), w))
        samples.append((Winding.start(None, w), w))
    return worlds, samples


class Textbook(Analysis):
    """runs of correct flags and of openings around correctly flagged numbers, close to each other"""
    first = 1
    LEAST, FAR = 5, 16
    calls = {"is_good_chording": lambda b, c: b[c[0]][c[1]] == 20}
    parts = {**Analysis.parts, "last": lambda s, w: s["last"], "state": lambda s, w: s["state"], "steps": lambda s, w: s["steps"], "flags": lambda s, w: s["flags"],
             "anchor": lambda s, w: s["anchor"]}

    def start(self, w):
        return {"i": 1, "events": w["events"], "last": 0, "state": "NotStart", "steps": 0, "flags": 0, "anchor": 0}

    def free(self, s):
        return {"steps", "flags", "anchor"} if s["state"] == "NotStart" else set()

    def turn(self, s, w):
        i, es = s["i"], s["events"]
        e, l = es[i], es[s["last"]]
        s = dict(s, i=i + 1)
        if e["mouse"] == "mv":
            return s
        b, (r, c) = seen(e, w)
        r0, c0 = l["y"] // PIX, l["x"] // PIX
        over = False

        def stop():
            if s["state"] == "IsOk":
                s["steps"] -= s["flags"]
                return True
            s.update(state="NotStart", steps=0, flags=0)
            return False
        if e["mouse"] == "rc" and e["useful_level"] == 1 and b["game_board"][r][c] == 10:
            if s["state"] == "NotStart":
                s.update(state="StartNow", steps=1, flags=1, anchor=i)
            else:
                s.update(state="StartNotOk" if s["state"] == "StartNow" else s["state"], steps=s["steps"] + 1, flags=s["flags"] + 1)
        elif e["useful_level"] == 3:
            if b["game_board"][r][c] != 20:
                over = stop()
            elif s["state"] != "NotStart":
                s.update(state="StartNotOk" if s["state"] == "StartNow" else s["state"], steps=s["steps"] + 1, flags=0)
        elif e["mouse"] == "lr" and l["mouse_state"] in ("DownUp", "Chording") or e["mouse"] == "rr" and l["mouse_state"] == "Chording":
            over = stop()
        if not over and (r - r0) ** 2 + (c - c0) ** 2 > self.FAR and s["state"] in ("StartNotOk", "IsOk"):
            over = stop()
        if not over and s["state"] in ("StartNow", "StartNotOk") and s["steps"] - s["flags"] >= self.LEAST:
            s["state"] = "IsOk"
        if over:
            s["events"] = remarked(es, s["anchor"], f"feature: 教科书式的FL局部(步数{s['steps']});")
            s.update(state="NotStart")
        s["last"] = i
        return s


def textbook_samples():
    worlds, samples = [], []
    kinds = [("mv", 0, 10), ("mv", 3, 20), ("rc", 1, 10), ("rc", 1, 11), ("rc", 0, 10), ("rc", 0, 3), ("rr", 3, 20), ("lr", 3, 20), ("rr", 3, 3), ("lr", 3, 3), ("lr", 2, 10), ("lr", 0, 3), ("rr", 0, 3), ("lc", 0, 3), ("mc", 0, 3)]
    for (mouse, level, cell), before, (dr, dc), state, (n, f) in itertools.product(kinds, ("DownUp", "Chording", "UpUp", "DownUpAfterChording"), ((0, 0), (4, 0), (0, -4), (3, 3), (5, 0), (0, 5), (-5, 1)), ("NotStart", "StartNow", "StartNotOk", "IsOk"), ((1, 1), (4, 0), (5, 1), (5, 0), (6, 3), (9, 2))):
        if state == "StartNow" and n != f or state == "IsOk" and n < 5:
            continue
        if before not in ("DownUp", "UpUp") and (dr, dc) not in ((0, 0), (5, 0)):
            continue
        r, c = 6, 7
        e = at_cell(r, c, mouse=mouse, level=level, prior=1, state="UpDown", comments="a;", tag=4)
        l = at_cell(r + dr, c + dc, mouse="rr", level=0, prior=0, state=before, comments="b;", tag=2)
        ev = [event(tag=0), at_cell(1, 1, comments="c;", tag=1), l, at_cell(15, 15, tag=3, state="Chording"), e]
        gb = [[cell if (x, y) == (r, c) else (10 if cell != 10 else 5) for y in range(16)] for x in range(16)]
        other = [[20 if cell != 20 else 10] * 16 for _ in range(16)]
        mk_b = lambda g: {"game_board": g, "": "board"}
        w = {"events": ev, "stream": [mk_b(other), mk_b(gb), mk_b(other)], "what": f"{mouse} of useful level {level} on a cell {cell}, {dr},{dc} cells from an event that left {before}"}
        if len(samples) % 97 == 0:
            worlds.append(w)
        samples.append(({"i": 4, "events": ev, "last": 2, "state": state, "steps": n, "flags": f, "anchor": 1}, w))
    for w in worlds:
        samples.append((dict(samples[0][0], i=5, events=w["events"], state="StartNotOk"), w))
    return worlds, samples


def on_board(I):
    """note where boards are read at the cell of an event"""
    def note(st, fn, line, i):
        for x in subterms(i):
            if x.op == "div" and x.args[1].op == "." and x.args[1].args[1] == CELL:
                for y in subterms(x.args[0]):
                    if y.op == "." and y.args[1] in ("x", "y"):
                        I.panics.append((fn, line, ("cell", line, st, i, get_field(y.args[0], "useful_level")), st))
    I.on_index = lambda st, ci, ref, idx, n, kind: note(st, ci.f.name, ci.line, idx)

    def checked(st, f, fr, b, t):
        if t["m"][0] == "bounds":
            note(st, f.name, b["l"], I.operand(st, fr, f, t["m"][2]))
    I.on_assert = checked


def judge(ck, p, nm, fname, spec_of, worlds, samples):
    f = p.fns[fname]
    w = wh(f)
    I = Interp(p, handlers={LEVEL + "get_" + x: pure_board(x) for x in BOARD}, opaque=[x for x in p.fns if x.endswith("::is_good_chording")])
    I.split = lambda n: True
    on_board(I)
    ex = I.analyse(fname)
    ck.use(I, ex)
    for line, st, i, u in [x[2][1:] for x in I.panics if isinstance(x[2], tuple) and x[2][0] == "cell"]:
        ck.ob(f"{nm}/inside", (I.interval(st, u)[0] or 0) >= 1, f"the board is read at {show(i)[:100]}, the cell of an event that need not be on it", f"{f.file}:{line}")
    heads = {k[:2] for k in I.arrivals}
    if not ck.ob(f"{nm}/one-pass", len(heads) == 1 and len(ex) >= 1, f"{len(heads)} loops over the events", w):
        return
    root = [k for e in ex for k in e.st.mem if k[0] == "P"][:1]
    spec = spec_of(mk("init", root[0][1] if root else "a1"))
    t = Turns(I, next(iter(heads)), spec)
    roles, msg = t.match(worlds, samples)
    if not ck.ob(f"{nm}/each-event", roles is not None, msg or "", w):
        return
    ends = [x for x in samples if not spec.more(*x)]
    m = t.leaves(ex, roles, ends, lambda e: [e.st.mem.get(root[0], spec.root) if root else spec.root]) or t.early(ex, roles, samples)
    ck.ob(f"{nm}/result", m is None and len(ends) > 0, m or "no end was looked at", w)
    ck.floor(f"{nm}/settings", len(samples), 100)


def v22(ck):
    ck.rule = ("analyse_for_features and the analyses it runs: every path of one turn of their loops, with its conditions, is evaluated as a decision table over all settings of what it speaks of (kind of event, usefulness, chance of a mine, known cells) "
               "and compared with the specified turn: the right remark, appended to the right event, nothing else changed; entry and exit establish and use the same relation.")
    p = prog()
    fn = dispatch(ck, p)
    worlds, samples = guess_samples(2)
    for nm, spec in (("high_risk_guess", Risky), ("jump_judge", Hard), ("needless_guess", Needless)):
        if nm in fn:
            judge(ck, p, nm, fn[nm], spec, worlds, samples)
    if "survive_poss" in fn:
        judge(ck, p, "survive_poss", fn["survive_poss"], Chance, *chance_samples())


    if "vision_transfer" in fn:
        only_appends(ck, p, "vision_transfer", fn["vision_transfer"], "warning: 可以判雷时视野的转移;")


def only_appends(ck, p, nm, fname, text):
    """nothing but `text` is ever added to the remarks of an event, and nothing else changes"""
    w = wh(p.fns[fname])
    I = Interp(p, handlers={LEVEL + "get_" + x: pure_board(x) for x in BOARD})
    I.split = lambda n: True
    ex = I.analyse(fname)
    ck.use(I, ex)
    seen_, added, bad = set(), [], []

    def look(t):
        if t in seen_:
            return
        seen_.add(t)
        if t.op == "phi":
            for x in I.phi_in[t]:
                look(x)
        elif t.op == "." and t.args[1] == REC and t.args[0].op == "init":
            return
        elif t.op == "store" and t.args[2].op == "S" and t.args[2].args[2] is not None and [k for k, _ in t.args[2].args[3]] == ["comments"] \
                and t.args[2].args[2] is select(t.args[0], t.args[1]):
            old = get_field(t.args[2].args[2], "comments")
            try:
                v = Setting({old: "before;"})(get_field(t.args[2], "comments"))
            except Unknown as e:
                return bad.append(str(e))
            (added if v == "before;" + text else bad).append(v)
            look(t.args[0])
        else:
            bad.append(show(t)[:160])
    for e in ex:
        for k, v in e.st.mem.items():
            if k[0] != "P":
                continue
            if v.op == "S" and v.args[2] is not None and v.args[2].op == "init" and {x for x, _ in v.args[3]} <= {REC}:
                for _, x in v.args[3]:
                    look(x)
            elif v.op != "init":
                bad.append(show(v)[:160])
    ck.ob(f"{nm}/only-remarks", len(ex) >= 1 and not bad and bool(added), f"{bad[:2]}", w)


def v23(ck):
    ck.rule = ("The analysis of the mouse path, found by the name that asks for it: every path of one turn is evaluated as a decision table over kinds of events, positions and lengths of the way, and compared with the specified turn "
               "(ratio of the way travelled since the last click to the straight line; the remark goes to the event the way began at); entry and exit establish and use the same relation.")
    p = prog()
    f = asked(ck, p, "mouse_trace")
    if f:
        judge(ck, p, "mouse_trace", f, Winding, *winding_samples())


def v24(ck):
    ck.rule = ("The analysis of textbook FL, found by the name that asks for it: every path of one turn is evaluated as a decision table over kinds of events, cells, distances and the state of the run, and compared with the specified turn; "
               "entry and exit establish and use the same relation.")
    p = prog()
    f = asked(ck, p, "super_fl_local")
    if f:
        judge(ck, p, "super_fl_local", f, Textbook, *textbook_samples())


# ---- the probabilities shown during the replay -----------------------------------------------------

class LastEffect:
    """looking, one event after the other, for one that changed the board: back from the current event, stopping at the first event or
    before it, or forward up to the current event"""
    calls = {}
    parts = {"id": lambda s, w: s["id"], "left": lambda s, w: s["id"] + 1, "length": lambda s, w: w["video"]["current_event_id"] + 1}

    def __init__(self, step, last):
        self.step, self.last = step, last

    def atoms(self, w):
        return {SELF: w["video"]}

    def start(self, w):
        return {"id": w["video"]["current_event_id"] if self.step < 0 else 0}

    def changed(self, s, w):
        return 0 <= s["id"] <= w["video"]["current_event_id"] and w["video"][REC][s["id"]]["useful_level"] >= 2

    def more(self, s, w):
        return (s["id"] > self.last if self.step < 0 else s["id"] <= w["video"]["current_event_id"]) and not self.changed(s, w)

    def turn(self, s, w):
        return {"id": s["id"] + self.step}

    def result(self, s, w):
        v = w["video"]
        return [v[STREAM][v[REC][v["current_event_id"]]["next_game_board_id"]]["poss"] if self.changed(s, w) else [[v["mine_num"] / (v["height"] * v["width"])] * v["width"]] * v["height"]]

    def tell(self, w):
        return w["what"]


def v25(ck):
    ck.rule = "A loop that goes back event by event from the current one and stops at the first of useful level 2 or more, or at the first event: every turn and every answer is judged against that specification, over all combinations of levels."
    p = prog()
    g = fn_named(p, "get_game_board_poss", "BaseVideo")
    w = wh(g)
    I = Interp(p, handlers={f"{LEVEL}get_poss": pure_board("poss")})
    I.split = lambda n: True
    ex = I.analyse(g.name)
    ck.use(I, ex)
    worlds = []
    for n in (1, 2, 3):
        for levels in itertools.product((0, 1, 2, 3), repeat=n):
            for cur in range(n):
                ev = [dict(event(level=x, tag=i), next_game_board_id=(i + 1) % 3) for i, x in enumerate(levels)]
                v = {REC: ev, STREAM: [{"poss": [[0.1 * (k + 1)] * 3] * 2, "": f"board {k}"} for k in range(3)], "current_event_id": cur, "width": 3, "height": 2, "mine_num": 4 + n, "": "video"}
                worlds.append({"video": v, "what": f"useful levels {levels}, event {cur}"})
    heads = {q.args[0] for q in I.phi_in}
    if not ck.ob("one-loop", len(heads) == 1, f"{len(heads)} loops", w):
        return
    said = []
    for step, last in ((-1, 0), (-1, -1), (1, None)):
        spec = LastEffect(step, last)
        t = Turns(I, next(iter(heads)), spec)
        samples, ends = [], []
        for x in worlds:
            s = spec.start(x)
            while spec.more(s, x):
                samples.append((s, x))
                s = spec.turn(s, x)
            samples.append((s, x))
            ends.append((s, x))
        roles, msg = t.match(worlds, samples)
        if roles is not None:
            msg = t.leaves(ex, roles, ends, lambda e: [I.deep(e.st, e.val)]) or t.early(ex, roles, samples)
        said.append(msg)
        if msg is None:
            break
    said.sort(key=lambda m: m is not None and 1 + ("what the loop carries" in m) * 2 + ("another turn" in m))
    ck.ob("answer", None in said, said[0] or "", w)
    for e in ex:
        me = e.st.mem.get(("P", "self"), SELF)
        ch = {k for k, _ in (me.args[3] if me.op == "S" else ())}
        ck.ob("pure", ch <= {STREAM}, f"changes {sorted(ch)}", w)
