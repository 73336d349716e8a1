"""Sequences of operations."""
from props.board_machine import *
import itertools
from turns import Turns, Unknown, Variant, possible


class Sequence:
    """the operations one after the other, up to the first that is refused; a machine is told by the operations it has been given"""
    parts = {"next": lambda s, w: s["i"], "machine": lambda s, w: ["machine"] + [list(x) for x in w["ops"][:s["i"]]], "left": lambda s, w: len(w["ops"]) - s["i"], "length": lambda s, w: len(w["ops"])}

    def __init__(self):
        self.calls = {}

    def atoms(self, w):
        no = lambda m, k, pos: Variant("Err", ()) if (k, tuple(pos)) in w["refused"] else Variant("Ok", len(m))
        self.calls.update({"step": no, "&step/0": lambda m, k, pos: m + [[k, tuple(pos)]]})
        return {SELF: ["machine"], mk("init", "a2"): w["ops"]}

    def start(self, w):
        return {"i": 0}

    def more(self, s, w):
        return s["i"] < len(w["ops"]) and w["ops"][s["i"]] not in w["refused"]

    def turn(self, s, w):
        return {"i": s["i"] + 1}

    def result(self, s, w):
        done = ["machine"] + [list(x) for x in w["ops"][:s["i"] + 1]]
        return [done, () if s["i"] == len(w["ops"]) else None]

    def tell(self, w):
        return f"operations {w['ops']}"[:150] + f", refused {w['refused']}"


def m13(ck):
    ck.rule = "The loop over the operations is judged turn by turn against its specification, the machine being told by the operations it has been given: one turn per operation, in order, with that operation's words; out of the loop only after the last operation or a refused one."
    p = prog()
    g = fn_named(p, "step_flow", r"MinesweeperBoard<T>")
    w = f"{g.file}:{g.line} step_flow"
    I = Interp(p, opaque=[step_fn(p)])
    I.split = lambda n: True
    ex = I.analyse(g.name)
    ck.use(I, ex)
    ck.ob("complete", not I.unmodelled, f"not followed: {I.unmodelled}", w)
    ops = [("lc", (0, 1)), ("lr", (0, 1)), ("rc", (2, 0)), ("cc", (1, 1))]
    worlds = []
    for n in range(5):
        for seq in itertools.islice(itertools.permutations(ops, n), 24):
            for refused in [()] + [(o,) for o in seq] + [tuple(seq[1:3])]:
                worlds.append({"ops": list(seq), "refused": refused})
    told = {x.args[0] for s in [e.st for e in ex] + [s for d in I.phi_in.values() for l in d.values() for s in l] for f in s.facts for x in subterms(f) if x.op == "c" and isinstance(x.args[0], int)}
    long = [n for n in told | {300} if 4 < n <= 100000]
    worlds += [{"ops": [ops[i % 3] for i in range(n + 2)], "refused": ()} for n in long]
    heads = {q.args[0] for q in I.phi_in}
    if not ck.ob("one-loop", len(heads) == 1, f"{len(heads)} loops", w):
        return
    spec = Sequence()
    t = Turns(I, next(iter(heads)), spec)
    samples, ends = [], []
    for x in worlds:
        s = spec.start(x)
        while spec.more(s, x):
            if len(x["ops"]) < 5 or any(abs(s["i"] - n) < 2 for n in long):
                samples.append((s, x))
            s = spec.turn(s, x)
        samples.append((s, x))
        ends.append((s, x))
    roles, msg = t.match(worlds, samples)
    if roles is not None:
        me = lambda e: e.st.mem.get(("P", "self"), SELF)
        msg = t.leaves(ex, roles, ends, lambda e: [me(e)]) or t.early(ex, roles, samples)
        for s, x in ends:
            ev = t.setting(roles, s, x)
            for e in ex:
                if possible(ev, e.st):
                    try:
                        v = ev(e.val)
                        got = v[0] if isinstance(v, tuple) else v[""]
                    except (Unknown, TypeError, KeyError, IndexError):
                        got = None
                    want = "Ok" if s["i"] == len(x["ops"]) else "Err"
                    ck.ob("answer", got == want, f"answers {got}, should be {want}, with {spec.tell(x)}", w)
    ck.ob("each-operation", msg is None, msg or "", w)
