"""Boards that are called solvable: who says so, and about which board."""
from props.mines import *

STOP = ("P", "stop")
SENT = ("P", "sent")
EARLY = ("P", "early")


def fresh_boards(names):
    """each call of a generator gives a board of its own"""
    def h(I, st, ci, a):
        return [(st, mk("fresh", ci.g.name if getattr(ci, "g", None) else ci.name, ci.fr, ci.bi, tuple(I.snapshot(st, x) for x in a)))]
    return {n: h for n in names}


def is_from(t, name, args):
    return t.op == "fresh" and t.args[0] == name and t.args[3] == tuple(args)


def budget_spent(I, s, limit, refuted):
    """the path has counted up to `limit` attempts, one for every board refuted; '' or the reason why not"""
    for c in {x for f in s.facts for x in subterms(f) if x.op == "phi" and x in I.phi_in}:
        h = c.args[0]
        back = [a for a in arrivals(I, h) if mentions(at(a, c), lambda x: x is c)]
        into = [a for a in arrivals(I, h) if a not in back]
        up = {at(a, c) for a in into} == {C(0)} and all(at(a, c) is add(c, C(1)) for a in back) and I.ev(s, tlt(c, limit)) is False
        down = {at(a, c) for a in into} == {limit} and all(at(a, c) is add(c, C(-1)) for a in back) and (I.ev(s, teq(c, C(0))) is True or I.ev(s, tlt(c, C(1))) is True)
        if not up and not down or not back:
            continue
        if any(not refuted(a) for a in back):
            return "an attempt is counted without a board having been refused"
        more = [a for a in back if not (I.ev(a, tlt(c, limit)) is True if up else I.ev(a, teq(c, C(0))) is False or I.ev(a, tlt(c, C(1))) is False)]
        return "one more board is tried after the allowed attempts are used up" if more else ""
    return "given up before the allowed attempts are used up"


def same_board(ck, k, I, t, row, col, w):
    """the board a cell-by-cell copy was made from"""
    if t.op != "phi":
        return t
    cs = Cells(I, t)
    srcs = {v.args[0].args[0] for i, j, v, s in cs.writes if v.op == "sel" and v.args[0].op == "sel"}
    empty = mk("from_elem", mk("from_elem", C(0), col), row)
    if len(srcs) != 1:
        return t
    src = srcs.pop()
    got = gridmap(ck, k + "/copy", I, t, [empty], lambda s, i, j, c: select(select(src, i), j), [row, mk("len", src)], lambda i: [col, *(mk("len", select(src, z)) for z in (C(0), i))], w)
    return src if got else t


def ways(I, s, board, flag, depth=0):
    """(state, board, flag) with the flag known, looking through what a loop carries round together"""
    h = {x.args[0] for x in (board, flag) if x.op == "phi" and x in I.phi_in and any(y.op == "fresh" or y is FALSE or y is TRUE for y in I.phi_in[x])}
    if depth < 3 and len(h) == 1 and (flag in (TRUE, FALSE) or flag.op == "phi"):
        h = h.pop()
        want = I.ev(s, flag)
        out = []
        for a in arrivals(I, h):
            b, f = (at(a, x) if x.op == "phi" and x.args[0] == h else x for x in (board, flag))
            if b is board and f is flag:
                continue
            a2 = a.copy()
            if want is not None and f is not None and f not in (TRUE, FALSE):
                a2 = I.assume(a2, f, want)
                f = TRUE if want else FALSE
                if a2 is None:
                    continue
            elif want is not None and f in (TRUE, FALSE) and (f is TRUE) is not want:
                continue
            # what the way out of the loop knows still counts
            for fact, v in s.facts.items():
                if not mentions(fact, lambda x: x.op == "phi" and x.args[0] == h):
                    a2.facts.setdefault(fact, v)
            out += ways(I, a2, b, f, depth + 1)
        return out
    if flag not in (TRUE, FALSE):
        out = []
        for v in (True, False):
            x = I.assume(s.copy(), flag, v)
            if x is not None:
                out.append((x, board, TRUE if v else FALSE))
        return out
    return [(s, board, flag)]


def filtered(ck, k, I, ex, gen, test, args, start, limit, w, stopped=lambda s: False):
    """(state, board, flag) results of the generate-and-test loop"""
    kinds = set()

    def asked(f):
        return f is not None and f.op == "call" and f.args[0] == test and f.args[1][0].op == "ref" and is_from(f.args[1][0].args[0], gen, args) and f.args[1][1:] == tuple(start)

    def refused(a, s):
        if any(x is False and asked(f) for f, x in a.facts.items()):
            return True
        # kept in a variable that has to be false for another turn and for this way out
        return any(asked(at(a, q)) and I.ev(s, q) is False and all(at(b, q) is FALSE or asked(at(b, q)) and I.ev(b, q) is False for b in arrivals(I, q.args[0])) for q in I.phi_in)
    for s0, board0, flag0 in ex:
        for s, board, flag in ways(I, s0, board0, flag0):
            b = same_board(ck, k, I, board, args[0], args[1], w)
            if not ck.ob(k + "/board", is_from(b, gen, args), f"the board is {show(b)[:160]}, not one laid with the parameters given", w):
                continue
            kinds.add(flag)
            if flag is TRUE:
                ck.ob(k + "/accepted", I.ev(s, mk("call", test, (mk("ref", b), *start))) is True, "a board is called solvable without the solvability test having accepted it for this start", w)
            elif not stopped(s0):
                r = budget_spent(I, s0, limit, lambda a: refused(a, s0))
                ck.ob(k + "/given-up", not r, r, w)
    return kinds


def a03(ck):
    ck.rule = ("At every exit of the generate-and-test routines (and every message a worker thread sends) the board is a fresh result of the opening-safe generator with the caller's parameters or a cell-by-cell copy of it; the success flag is set only where the solvability test is known to have accepted that very board for the caller's start, "
               "and failure only where as many refused boards were counted as allowed, or the stop signal was seen; the stop signal cannot be seen before the success message is sent (lock scope); the workers' allowances add up to the caller's.")
    p = prog()
    gen, lay, test = fn_named(p, "utils::laymine_op"), fn_named(p, "utils::laymine"), fn_named(p, "algorithms::is_solvable")
    a = [mk("init", f"a{i}") for i in range(1, 7)]
    start = (a[3], a[4])
    # ---- one thread
    g = fn_named(p, "algorithms::laymine_solvable")
    w = wh(g)
    I = Interp(p, opaque=[test.name], handlers=fresh_boards([gen.name]))
    I.split = lambda n: True
    ex = I.analyse(g.name)
    ck.use(I, ex)
    kinds = filtered(ck, "single", I, [(e.st, get_field(e.val, "0"), get_field(e.val, "1")) for e in ex], gen.name, test.name, a[:5], start, a[5], w)
    ck.ob("single/kinds", TRUE in kinds, "never succeeds", w)
    threads(ck, p, gen, test, a, start)
    adjusted(ck, p, gen, lay, test, a, start)


def threads(ck, p, gen, test, a, start):
    g = fn_named(p, "algorithms::laymine_solvable_thread")
    w = wh(g)
    spawn, send, recv = "std::thread::spawn", "std::sync::mpsc::Sender::<T>::send", "std::sync::mpsc::Receiver::<T>::recv"
    # the outside: what each worker is given, what is done with the message received
    I = Interp(p, opaque=[test.name], handlers=fresh_boards([gen.name]))
    I.split = lambda n: True
    I.unroll = 64
    given = {}

    def hired(I, st, ci, x):
        c = I.snapshot(st, x[0])
        given.setdefault((ci.fr, ci.bi, st.trace), {})[c] = 1
        return [(st, mk("call", spawn, (c,)))]
    I.handlers[spawn] = hired
    ex = I.analyse(g.name)
    ck.use(I, ex)
    ck.ob("thread/exits", len(ex) >= 1, "never returns", w)
    for e in ex:
        msgs = {x for x in subterms(e.val) if x.op == "call" and x.args[0] == recv} | {x for x in subterms(get_field(e.val, "1")) if x.op == "call" and x.args[0] == recv}
        if not ck.ob("thread/message", len(msgs) == 1, f"the result is made from {len(msgs)} messages", w):
            continue
        m = get_field(msgs.pop(), "Ok.0")
        b = same_board(ck, "thread/result", I, get_field(e.val, "0"), a[0], a[1], w)
        ck.ob("thread/received", b is get_field(m, "0") and get_field(e.val, "1") is get_field(m, "1"), f"board {show(b)[:150]} is returned with flag {show(get_field(e.val, '1'))[:150]}, not a message with its own flag", w)
    works = [c for d in given.values() for c in d]
    flags0 = {x.args[1][0] for c in works for x in subterms(c) if x.op == "call" and (x.args[0].endswith("Mutex::<T>::new") or "::Atomic" in x.args[0] and x.args[0].endswith("::new"))}
    # the inside: every worker's messages
    seen = {}
    J = Interp(p, opaque=[test.name], handlers=fresh_boards([gen.name]))
    J.split = lambda n: True

    def run(I, st, ci, x):
        s0 = st.copy()
        s0.mem[SENT] = mk("veclit")
        s0.mem[EARLY] = FALSE
        s0.mem[STOP] = mk("env", "stop", "none")
        res = I.call_value(s0, ci, x[0], [], "worker")
        seen[(ci.fr, ci.bi, st.trace)] = (I.deep(st, x[0]), [s for s, _ in res])
        out = []
        for s, v in res[:1]:
            out.append((st, mk("call", spawn, (UNIT,))))
        return out

    def sends(I, st, ci, x):
        s = st.copy()
        s.mem[SENT] = mk("push", s.mem.get(SENT, mk("veclit")), I.deep(st, x[1]))
        return [(s, S("Result", "Ok", {"Ok.0": UNIT}))]

    def locks(I, st, ci, x):
        s = st.copy()
        s.mem[STOP] = mk("env", "stop", ci.fr, ci.bi)
        return [(s, S("Result", "Ok", {"Ok.0": mk("guard", ci.fr, ci.bi)}))]

    def deref(I, st, ci, x):
        return [(st, mk("&", STOP, ()))]

    def released(st, f, t):
        if "MutexGuard" in t["ty"]:
            raised(st)

    def raised(st):
        if signalled(J, st.mem.get(STOP)) and st.mem.get(SENT) is mk("veclit"):
            st.mem[EARLY] = TRUE

    def dropped(I, st, ci, x):
        s = st.copy()
        if any(y.op == "guard" for y in subterms(I.deep(st, x[0]))):
            raised(s)
        return [(s, UNIT)]

    def store(I, st, ci, x):
        s = st.copy()
        s.mem[STOP] = I.deep(st, x[1])
        raised(s)
        return [(s, UNIT)]

    def load(I, st, ci, x):
        s = st.copy()
        v = mk("env", "stop", ci.fr, ci.bi)
        s.mem[STOP] = v
        return [(s, v)]
    J.on_drop = released
    J.handlers.update({spawn: run, send: sends, "std::sync::mpsc::SyncSender::<T>::send": sends, "std::sync::Mutex::<T>::lock": locks, "std::mem::drop": dropped,
                       "<std::sync::MutexGuard<'_, T> as std::ops::Deref>::deref": deref, "<std::sync::MutexGuard<'_, T> as std::ops::DerefMut>::deref_mut": deref})
    for n in ("AtomicBool", "AtomicUsize", "AtomicI32", "AtomicU32", "AtomicU8"):
        J.handlers[f"std::sync::atomic::{n}::load"] = load
        J.handlers[f"std::sync::atomic::{n}::store"] = store
    ex = J.analyse(g.name)
    ck.use(J, ex)
    ck.ob("thread/workers", bool(seen), "no worker is started", w)
    stop0 = next(iter(flags0)) if len(flags0) == 1 else None

    def stopped(s):
        """the path has seen the signal raised: it is not possible with the signal's first value"""
        for f, v in s.facts.items():
            for x in subterms(f):
                if x.op == "env" and x.args[0] == "stop" and stop0 is not None:
                    z = {TRUE: 1, FALSE: 0}.get(stop0, stop0.args[0] if is_int(stop0) else None)
                    try:
                        if bool(ceval(f, {x: z})) is not v:
                            return True
                    except NoValue:
                        pass
        return False
    spots = {}
    for c, states in seen.values():
        vals = {get_field(c, str(i)) for i in range(12)}
        vals = {v for v in vals if v.op != "."}
        for s in states:
            sent = s.mem.get(SENT)
            first = None
            while sent is not None and sent.op == "push":
                first, sent = sent.args[1], sent.args[0]
            if sent is not None and sent.op == "veclit" and sent.args:
                first, sent = sent.args[0], mk("veclit")
            if not ck.ob("worker/reports", first is not None and sent is mk("veclit"), f"a worker ends having sent {show(s.mem.get(SENT))[:150]}", w):
                continue
            ck.ob("worker/order", s.mem.get(EARLY) is FALSE, "the other workers may see the stop signal, give up and be heard before the success is sent", w)
            flag = get_field(first, "1")
            ck.ob("worker/signal", flag is TRUE or not signalled(J, s.mem.get(STOP)), "the other workers are stopped without success", w)
            limits = [x for x in vals if x is not None and x not in a and x.op not in ("phi", "ref", "S", "&")] + [x for x in vals if x is not None and x.op == "phi"]
            last = ""
            for lim in limits:
                q = Quiet()
                kinds = filtered(q, "worker", J, [(s, get_field(first, "0"), flag)], gen.name, test.name, a[:5], start, lim, w, stopped)
                last = q.bad
                if not last:
                    if flag is FALSE and not stopped(s):
                        spots.setdefault(lim, 0)
                    break
            else:
                if not limits:
                    last = "a worker has no allowance of its own"
            ck.ob("worker/result", not last, last, w)
    # the allowances: those captured at the place the workers compare with
    fields = {i for c, _ in seen.values() for i in range(12) if get_field(c, str(i)) in spots}
    idx = [i for i in fields]
    ck.ob("thread/allowance", len(idx) == 1, f"the workers' allowance is captured at {idx}", w)
    if len(idx) == 1:
        tot = C(0)
        for c in works:
            tot = add(tot, get_field(c, str(idx[0])))
        bad = ""
        for n in range(100):
            try:
                bad = bad or next((f"{ceval(get_field(c, str(idx[0])), {a[5]: n})} of {n}" for c in works if not 0 <= ceval(get_field(c, str(idx[0])), {a[5]: n}) <= n), "")
            except NoValue as x:
                bad = f"not followed: {x}"
        ck.ob("thread/share", not bad, f"a worker's allowance is {bad}", w)
        ck.ob("thread/total", tot is a[5], f"the workers may try {show(tot)[:200]} boards together, not the number asked for", w)


def signalled(I, v, seen=()):
    """some value was written to the stop signal by this worker"""
    if v is None or v.op == "env" or v in seen:
        return False
    if v.op == "phi":
        return any(signalled(I, x, (*seen, v)) for x in I.phi_in.get(v, {}))
    return True


class Quiet:
    """collects failures without reporting them"""

    def __init__(self):
        self.bad = ""

    def ob(self, k, ok, msg="", w=None):
        if not ok and not self.bad:
            self.bad = f"{k}: {msg}"
        return ok


def adjusted(ck, p, gen, lay, test, a, start):
    g = fn_named(p, "algorithms::laymine_solvable_adjust")
    step = fn_named(p, "algorithms::adjust_step")
    w = wh(g)
    I = Interp(p, opaque=[test.name, step.name], handlers=fresh_boards([gen.name, lay.name]))
    I.split = lambda n: True
    ex = I.analyse(g.name)
    ck.use(I, ex)
    ck.ob("adjust/exits", len(ex) >= 1, "never returns", w)
    n = 0
    for e in ex:
        b, flag = get_field(e.val, "0"), get_field(e.val, "1")
        st = I.assume(e.st.copy(), flag, True) if flag not in (TRUE, FALSE) else e.st if flag is TRUE else None
        if st is None or I.ev(st, mk("call", test.name, (mk("ref", b), *start))) is True:
            continue
        if is_from(b, lay.name, a[:5]) or is_from(b, gen.name, a[:5]):
            wide = is_from(b, gen.name, a[:5])
            bad = ""
            for r in range(1, 6):
                for c in range(1, 6):
                    for x in range(r):
                        for y in range(c):
                            for m in range(r * c):
                                n += 1
                                if bad or not holds(st, dict(zip(a, (r, c, m, x, y)))):
                                    continue
                                win = sum(abs(i - x) <= 1 and abs(j - y) <= 1 for i in range(r) for j in range(c)) if wide else 1
                                if m != r * c - win:
                                    bad = f"a board {r}x{c} with {m} mines opened at ({x},{y}) is called solvable although the first click does not open all of it"
            ck.ob("adjust/trivial", not bad, bad, w)
            continue
        if searched(ck, I, st, b, step, a, w):
            ck.ob("adjust/accepted", False, "a board of the adjusting search is called solvable without the solvability test having accepted it", w)
    ck.floor("small boards", n, 1)


def searched(ck, I, st, b, step, a, w):
    """the board is what the search found for this start, with mines where nothing was laid and then the numbers; the search said it succeeded"""
    ps = Pass(ck, "adjust", I, b, w)
    if not ps.ok or not ck.ob("adjust/numbered", len(ps.bases) == 1, f"numbers are put on {len(ps.bases)} boards", w):
        return False
    base = next(iter(ps.bases))
    mined_pass(ck, "adjust", I, b, [a[0]], [a[1]], w, lambda x: x is base)
    found = {x for p in (Cells(I, base).bases if base.op == "phi" else [(base, None)]) for x in subterms(p[0]) if x.op == "call" and x.args[0] == step.name}
    if not ck.ob("adjust/search", len(found) == 1, f"the board comes from {len(found)} searches", w):
        return False
    c = found.pop()
    src = get_field(c, "0")
    BLANK = C(-10)

    def rule(s, i, j, cell):
        r = cell(lambda x: teq(x, BLANK))
        return None if r is None else MINE if r else KEEP
    ck.ob("adjust/rest", gridmap(ck, "adjust/rest", I, base, [src], rule, [a[0]], lambda i: [a[1]], w) == {"keep", MINE}, "the cells left over do not become mines", w)
    ck.ob("adjust/found", I.ev(st, get_field(c, "1")) is True, "the search did not succeed", w)
    board, seen, plan, m, rest = c.args[1]
    board = board.args[0] if board.op == "ref" else board
    cs = Cells(I, board)
    ck.ob("adjust/blank", {x for x, _ in cs.bases} == {mk("from_elem", mk("from_elem", BLANK, a[1]), a[0])}, f"the search starts from {[show(x)[:100] for x, _ in cs.bases]}", w)
    for i, j, v, s in cs.writes:
        r = window_ok(I, s, i, j, (a[3], a[4]), [a[0], mk("len", board)], [a[1]])
        ck.ob("adjust/start", not r and v is C(0), r or f"{show(v)} is put round the start", w)
    ck.ob("adjust/start", bool(cs.writes), "nothing keeps the start free", w)
    ck.ob("adjust/mines", m is a[2], f"the search is asked for {show(m)[:120]} mines", w)
    bad = ""
    for r in range(1, 5):
        for q in range(1, 5):
            for x in range(r):
                for y in range(q):
                    win = sum(abs(i - x) <= 1 and abs(j - y) <= 1 for i in range(r) for j in range(q))
                    env = dict(zip(a, (r, q, 0, x, y)))
                    try:
                        if ceval(rest, env) != r * q - win:
                            bad = f"{r}x{q} opened at ({x},{y}): {ceval(rest, env)} cells are left to lay, not {r * q - win}"
                    except NoValue as ex:
                        bad = f"not followed: {ex}"
    ck.ob("adjust/room", not bad, bad, w)
    return True
