"""The EVF file: reader, writer, audit table, saving."""
from props.video import *

RAW = F("data", "raw_data")
OFF0 = F("data", "offset")
STRINGS = ("software", "player_designator", "race_designator", "uniqueness_designator", "start_time", "end_time", "country", "device_uuid")
CODES = {1: "mv", 2: "lc", 3: "lr", 4: "rc", 5: "rr", 6: "mc", 7: "mr", 8: "pf", 9: "cc"}


def raw(o):
    return select(RAW, o)


def be(o, n):
    t = C(0)
    for i in range(n):
        t = add(mul(C(256), t), raw(add(o, C(i))))
    return t


def unchar(t):
    """a byte that went through char and back"""
    while t.op == "cast" and t.args[0] in ("u8", "char") and t.args[1].op in ("cast", "sel"):
        t = t.args[1]
    return t


def is_zero(I, st, b):
    """is the byte b known to be 0 / known not to be"""
    for c in (teq(b, C(0)), teq(mk("cast", "char", b), C("\0"))):
        v = I.ev(st, c)
        if v is not None:
            return v
    for f, v in st.facts.items():
        if f.op == "eq" and any(unchar(x) is b for x in f.args) and any(x.op == "c" and x.args[0] in (0, "\0", "\\x00") for x in f.args):
            return v
    return None


def too_short(st):
    """the path knows of a position past the end of the file"""
    return any((f.op == "lt" and not v and f.args[1] is mk("len", RAW)) or (f.op == "lt" and v and f.args[0] is mk("len", RAW)) for f, v in st.facts.items())


def advances(ck, k, I, o, start, by, w):
    """o is a file position that begins at `start` and moves on by `by` each round"""
    if o.op != "phi":
        return ck.fail(k, f"file position {show(o)} is not a loop variable", w)
    ins = {t for t in I.phi_in.get(o, {}) if t is not o}
    own = {t for t in ins if the_phi(t) is o}
    ok1 = ck.ob(k + "/start", ins - own == {start}, f"reading starts at {[show(t) for t in ins - own]}, expected {show(start)}", w)
    return ck.ob(k + "/step", own == {add(o, C(by))} and o not in I.phi_in.get(o, {}) and ok1, f"moves on to {[show(d) for d in own]}, expected {by} at a time", w)


def carried(I, t):
    """a byte kept in a variable from one round of a loop to the next, as the byte of the file it is on every round"""
    if t.op != "phi" or not I.phi_in.get(t):
        return t
    for q in list(I.phi_in):
        if q.op == "phi" and q.args[0] == t.args[0] and q is not t:
            for k in (-1, 0):
                good = bool(I.phi_in[q])
                for x, sts in I.phi_in[t].items():
                    for s in sts:
                        now = at(s, q)
                        good = good and now is not None and unchar(x) is raw(add(now, C(k)))
                if good:
                    return raw(add(q, C(k)))
    return t


def v11(ck):
    ck.rule = ("The EVF reader, analysed over an arbitrary byte string: at every successful exit each field is value-numbered equal to the big-endian bytes at its place in the format; the eight texts are "
               "the bytes up to the next zero, one after the other; one-cell transitions of the mine bitmap loops are followed through a whole byte for all 256 byte values; every event pushed has the button, time and "
               "position of its 8 bytes; every failing exit is 'file too short' with a position known to be at or past the end.")
    reader = fn_named(prog(), "parse_video", "EvfVideo").name
    numbers = fn_named(prog(), "utils::cal_board_numbers").name
    g, I, ex = run("parse_video", None, impl="EvfVideo", opaque=[numbers], split=True)
    ck.use(I, ex)
    w = wh(g)
    oks = [e for e in ex if not is_err(e.val)]
    ck.ob("reads", len(oks) > 0, "never succeeds", w)
    for e in ex:
        if is_err(e.val):
            why = get_field(e.val, "Err.0")
            ck.ob("error", why.op == "S" and why.args[1] in ("FileIsTooShort", "InvalidBoardSize"), f"fails with {show(why)}", w)
            if why.op == "S" and why.args[1] == "InvalidBoardSize":
                ck.ob("error/size", any(I.ev(e.st, teq(raw(add(OFF0, C(k_))), C(0))) is True or I.ev(e.st, tlt(raw(add(OFF0, C(k_))), C(1))) is True for k_ in (2, 3)), "a board with cells is refused", w)
                continue
            short = too_short(e.st)
            ck.ob("error/short", short, "fails although no position is past the end of the file", w)
    at_ = lambda k_: add(OFF0, C(k_))
    for e in oks:
        me = e.st.mem.get(("P", "self"), SELF)
        got = lambda *p_: get_field(me, "data") if not p_ else F("data", *p_, of=me)

        def want(nm, exp, *p_):
            v = got(*(p_ or (nm,)))
            ck.ob(nm, same(I, e.st, v, exp), f"{nm} becomes {show(v)[:200]}, in the file it is {show(exp)[:200]}", w)
        flags = got("is_completed"), got("is_offical"), got("is_fair")
        for nm, t, bit in zip(("is_completed", "is_offical", "is_fair"), flags, (128, 64, 32)):
            try:
                tab = all(bool(ceval(t, {raw(at_(1)): v})) is bool(v & bit) for v in range(256))
            except NoValue as x:
                tab = False
            ck.ob(nm, tab, f"{nm} is {show(t)}, not bit {bit} of the flag byte", w)
        want("height", raw(at_(2)))
        want("width", raw(at_(3)))
        want("mine_num", be(at_(4), 2))
        want("cell_pixel_size", raw(at_(6)))
        want("mode", be(at_(7), 2))
        want("bbbv", be(at_(9), 2), "static_params", "bbbv")
        t = be(at_(11), 3)
        want("rtime", fdiv(i2f(t), C(1000.0)), "game_dynamic_params", "rtime")
        ms = got("game_dynamic_params", "rtime_ms")
        ck.ob("rtime_ms", ms is t or ms is mk("f2i", "u32", mk("f.round", fmul(C(1000.0), fdiv(i2f(t), C(1000.0))))), f"rtime_ms becomes {show(ms)[:200]}", w)
        want("can_analyse", TRUE)
        level_ok(ck, "level", I, e.st, got("level"), raw(at_(2)), raw(at_(3)), be(at_(4), 2), w)
        # the texts
        pos = at_(14)
        for nm in STRINGS:
            v = got(nm)
            if v.op != "phi":
                ck.fail(nm, f"{nm} becomes {show(v)[:200]}", w)
                break
            fam = Family(I, v)
            ck.ob(nm + "/kept", not fam.forgets(), fam.forgets(), w)
            ck.ob(nm + "/from", all(x is F("data", nm) or x.op == "veclit" and not x.args or x.op == "emptyvec" for x in fam.init_terms()), f"{nm} starts as {[show(x)[:80] for x in fam.init_terms()]}", w)
            bs = {unchar(x) for x, _ in fam.pushes}
            o = bs.pop() if len(bs) == 1 else None
            b = carried(I, o) if o is not None else None
            p_ = the_phi(b.args[1]) if b is not None and b.op == "sel" and b.args[0] is RAW else None
            k_ = sub(b.args[1], p_) if p_ is not None else None
            if k_ is None or not is_int(k_):
                ck.fail(nm + "/bytes", f"{nm} collects {[show(x)[:80] for x, _ in fam.pushes]}", w)
                break
            ck.ob(nm + "/nonzero", all(is_zero(I, s, o) is False for _, s in fam.pushes), f"{nm} takes in a byte not known to be different from zero", w)
            ck.ob(nm + "/gaps", not [1 for d, _, b in fam.steps if b is v and d is C(0)], f"{nm} passes over a byte", w)
            ck.ob(nm + "/end", is_zero(I, e.st, o) is True, f"{nm} ends although the byte is not known to be zero", w)
            if not advances(ck, nm + "/pos", I, p_, sub(pos, k_), 1, w):
                break
            pos = add(p_, add(k_, C(1)))
        else:
            after = bitmap_read(ck, I, e.st, got("board"), numbers, raw(at_(2)), raw(at_(3)), pos, w)
            if after is not None:
                events_read(ck, I, e, got, after, w)
    ck.floor("successful exits", len(oks), 2)


def level_ok(ck, k, I, st, v, h, wd, mn, w):
    """the level number stands for the three dimensions: 3, 4, 5 for the standard boards and 6 otherwise"""
    std = {3: (8, 8, 10), 4: (16, 16, 40), 5: (16, 30, 99)}

    def judge_(t, s):
        if not is_int(t) or t.args[0] not in (3, 4, 5, 6):
            return ck.fail(k, f"level {show(t)[:100]}", w)
        n = t.args[0]
        for lv, (a, b, c) in std.items():
            s2 = s
            for x, y in ((h, a), (wd, b), (mn, c)):
                s2 = I.assume(s2, teq(x, C(y)), True) if s2 is not None else None
            ck.ob(k, s2 is None or lv == n, f"level {n} where the board is {a}x{b} with {c} mines", w)
        if n in std:
            ck.ob(k, all(I.ev(s, teq(x, C(y))) is True for x, y in zip((h, wd, mn), std[n])), f"level {n} on a board that need not be {std[n]}", w)
    if v.op == "phi":
        for t, sts in I.phi_in.get(v, {}).items():
            for s in sts:
                if t is not v and s is not None:
                    judge_(t, s)
    else:
        judge_(v, st)


def bitmap_read(ck, I, st, board, numbers, h, wd, pos, w):
    """the board: zeros of the right size, -1 where the bit is set, numbered; returns the position after the bitmap"""
    if board.op != "eff" or board.args[0] != numbers:
        ck.fail("board", f"the numbers are not computed at last: {show(board)[:200]}", w)
        return None
    b = board.args[2][0]
    b = b.args[0] if b.op == "ref" else b
    cs = Cells(I, b)
    ck.ob("board/size", bool(cs.bases) and all(x is mk("from_elem", mk("from_elem", C(0), wd), h) for x, _ in cs.bases), f"starts from {[show(x)[:200] for x, _ in cs.bases]}", w)
    ck.ob("board/mines", bool(cs.writes), "no mine is placed", w)
    inner = None
    for i, j, v, s in cs.writes:
        ck.ob("board/mine", v is C(-1), f"a mine is written as {show(v)}", w)
        r = board_ok(I, s, i, j, [h], [wd], too_short) if j is not None else "a whole row is written"
        ck.ob("board/cells", not r, r, w)
        if not r:
            inner = the_phi(j).args[0]
    if inner is None:
        return None
    N = Nest(I, inner)
    if N.bad:
        ck.fail("board/loops", N.bad[0], w)
        return None
    bloc = [p.args[1:] for p in cs.phis if p.args[0] == inner]
    bitp = N.vars.get(bloc[0]) if bloc else None
    if bitp is None:
        ck.fail("board/loops", "the board is not written in the cell loop", w)
        return None
    # variables with a known entry value: counters, the current byte, the file position
    env = {}
    offs = []
    for loc, ins in N.init.items():
        if loc == bloc[0] or not ins or len(ins) != 1:
            continue
        t = next(iter(ins))
        if is_int(t):
            env[N.vars[loc]] = t
        elif t is pos:
            env[N.vars[loc]] = t
            offs.append(N.vars[loc])
    if not offs:
        ck.fail("board/position", "the bitmap is not read from where the texts end", w)
        return None
    first = None
    hist = []
    for n in range(17):
        hist.append(dict(env))
        cell = add(pos, C(n // 8))
        nxt = None
        bad = None
        paths = []
        for s in N.back:
            fs, need, possible = [], "", True
            for f, pol in s.facts.items():
                f2 = subst(f, env)
                rs = [x for x in subterms(f2) if x.op == "sel" and x.args[0] is RAW]
                if rs == [raw(cell)]:
                    fs.append((f2, pol))
                elif any(not_before(x.args[1], pos) for x in rs):
                    need = f"cell {n} depends on {show(f2)[:120]}"
                else:
                    try:
                        possible = possible and bool(ceval(f2, {})) is pol
                    except NoValue:
                        pass
            if not possible:
                continue
            bad = need or bad
            paths.append((s, fs, (at(s, bitp) is not bitp, tuple(sorted(((p.id, subst(at(s, p), env)) for p in env), key=lambda x: x[0])))))
        for v in range(256):
            vals = {raw(cell): v}
            outs = set()
            for s, fs, o in paths:
                good = True
                for f2, pol in fs:
                    try:
                        if bool(ceval(f2, vals)) is not pol:
                            good = False
                            break
                    except NoValue:
                        bad = f"cell {n} depends on {show(f2)[:120]}"
                if good:
                    outs.add(o)
            wrote = {o[0] for o in outs}
            if wrote != {bool(v >> (7 - n % 8) & 1)}:
                bad = bad or f"cell {n}: with byte {v} a mine is {'placed' if True in wrote else 'not placed'}"
            ns = {o[1] for o in outs}
            if len(ns) != 1:
                bad = bad or f"cell {n}: {len(ns)} continuations"
            elif nxt is None:
                nxt = ns
            elif ns != nxt:
                nxt = nxt | ns
        if nxt is not None and len(nxt) > 1:
            bad = bad or f"cell {n}: the next position depends on the byte"
        ck.ob("board/bits", bad is None, bad or "", w)
        if bad:
            return None
        byid = {p.id: p for p in env}
        env = {byid[i]: t for i, t in next(iter(nxt))}
    # after a whole byte everything repeats one byte on
    o = next(iter(offs))
    shift = {the_phi(pos): add(the_phi(pos), C(1))} if the_phi(pos) is not None else {}
    rep = bool(shift) and all(subst(hist[8][p], shift) is hist[16][p] for p in env)
    ck.ob("board/repeats", rep, "the reading of the second byte differs from that of the first", w)
    # only one variable tracks the file position
    ends = {N.outer_of(p.args[1:]) for p in offs}
    return next(iter(ends)) if len(ends) == 1 else None


def not_before(o, pos):
    d = sub(o, pos)
    return is_int(d) and d.args[0] >= 0


def events_read(ck, I, e, got, start, w):
    v = got("video_action_state_recorder")
    if v.op != "phi":
        return ck.fail("events", f"the records become {show(v)[:200]}", w)
    fam = Family(I, v)
    ck.ob("events/kept", not fam.forgets(), fam.forgets(), w)
    ck.ob("events/from", fam.init_terms() == {F("data", "video_action_state_recorder")}, f"the records start as {[show(x)[:80] for x in fam.init_terms()]}", w)
    ck.ob("events/gaps", not [1 for d, _, b in fam.steps if b is v and d is C(0)], "an event is passed over", w)
    seen = set()
    o = None
    for x, s in fam.pushes:
        xx, yy = get_field(x, "x"), get_field(x, "y")
        # the position of the event: the byte its kind depends on
        sel_ = [y for y in subterms(xx) if y.op == "sel" and y.args[0] is RAW]
        ps = {the_phi(y.args[1]) for y in sel_}
        if len(ps) != 1 or None in ps:
            ck.fail("events/pos", f"x is {show(xx)}", w)
            continue
        o = ps.pop()
        code = raw(o)
        ck.ob("events/x", xx is be(add(o, C(4)), 2), f"x is {show(xx)}", w)
        ck.ob("events/y", yy is be(add(o, C(6)), 2), f"y is {show(yy)}", w)
        ck.ob("events/time", get_field(x, "time") is fdiv(i2f(be(add(o, C(1)), 3)), C(1000.0)), f"time is {show(get_field(x, 'time'))}", w)
        m = get_field(x, "mouse")
        possible = [c for c in range(256) if I.assume(s, teq(code, C(c)), True) is not None]
        if m.op != "c" and len(possible) < 20:      # looked up in a table
            ms = [subst(m, {code: C(c)}) for c in possible]
            while any(y.op == "*" for y in ms):
                ms = [y.args[0] if y.op == "*" else y for y in ms]
            ck.ob("events/code", all(y.op == "c" and CODES.get(c) == y.args[0] for c, y in zip(possible, ms)), f"codes {possible[:4]} read as {[show(y)[:40] for y in ms]}", w)
            seen |= {y.args[0] for y in ms if y.op == "c"}
            continue
        m = m.args[0] if m.op == "c" else None
        if m == "ub":
            ck.ob("events/ub", not [c for c in possible if c in CODES or c in (0, 255)], f"code {possible[:3]} read as an unknown event", w)
        else:
            ck.ob("events/code", [CODES.get(c) for c in possible] == [m], f"codes {possible[:4]} read as {m}", w)
            seen.add(m)
    ck.ob("events/all", seen == set(CODES.values()), f"kinds read: {sorted(seen)}", w)
    if o is None:
        return
    advances(ck, "events/pos", I, o, start, 8, w)
    # the end
    end = [c for c in range(256) if I.assume(e.st, teq(raw(o), C(c)), True) is not None]
    cs, has = got("checksum"), got("has_checksum")
    if end == [0]:
        if cs.op == "phi":
            cells = Cells(I, cs)
            ck.ob("checksum/from", all(b.op in ("from_elem", "init", ".") for b, _ in cells.bases), f"{[show(b)[:80] for b, _ in cells.bases]}", w)
            ck.ob("checksum/writes", bool(cells.writes) and not cells.kept, "not every byte of the checksum is read", w)
            for i, j, val, s in cells.writes:
                r = full_axis(I, s, i, [C(32)], early=too_short) if j is None else "nested"
                ck.ob("checksum/bytes", not r, r, w)
                src = val.args[1] if val.op == "sel" and val.args[0] is RAW else None
                okp = src is not None and (src is add(add(o, C(1)), i) or
                                           (src.op == "phi" and set(I.phi_in.get(src, {})) == {add(o, C(1)), add(src, C(1))}))
                ck.ob("checksum/source", okp, f"byte {show(i)} of the checksum is {show(val)}", w)
        else:
            ck.fail("checksum", f"the checksum becomes {show(cs)[:200]}", w)
        ck.ob("checksum/has", I.ev(e.st, has) is True, "a file with a checksum is not remembered as having one", w)
    elif end == [255]:
        ck.ob("checksum/none", cs is mk("from_elem", C(0), C(32)), f"without a checksum in the file it becomes {show(cs)[:200]}", w)
        ck.ob("checksum/hasnot", I.ev(e.st, has) is False or has is F("data", "has_checksum"), "a file without a checksum is remembered as having one", w)
    else:
        ck.fail("end", f"reading ends on codes {end[:5]}", w)


# ------------------------------------------------------------------------------------------- the writer
def flat(t):
    out = []
    while t.op in ("push", "append"):
        if t.op == "append" and t.args[1].op == "veclit":
            out += [("push", x) for x in reversed(t.args[1].args)]
        else:
            out.append((t.op, t.args[1]))
        t = t.args[0]
    if t.op == "veclit":
        out += [("push", x) for x in reversed(t.args)]
        t = None
    out.reverse()
    return t, out


def byte(t):
    return mod(t, C(256))


def be_bytes(t, n):
    return [byte(div(t, C(256 ** i))) for i in range(n - 1, -1, -1)]


def to_ms(t):
    return mk("f2i", "u32", mk("f.round", fmul(C(1000.0), t)))


def v12(ck):
    ck.rule = ("The EVF writer, analysed over an arbitrary video: the header bytes are value-numbered equal to the format's; the mine bitmap's one-cell transitions are followed through a whole byte for all 256 "
               "patterns and the padding for all shorter ones; each record gives exactly the eight bytes of its button, time and position; the end marker and checksum follow. Nothing but raw_data changes.")
    g, I, ex = run("generate_evf_v0_raw_data", None, split=True)
    ck.use(I, ex)
    w = wh(g)
    H, W = F("height"), F("width")
    ck.ob("exits", bool(ex), "never returns", w)
    seen = set()
    ev = set()
    for e in ex:
        me = e.st.mem.get(("P", "self"), SELF)
        r = get_field(me, "raw_data")
        ck.ob("rest", same(I, e.st, set_field(me, "raw_data", F("raw_data")), SELF) or (me.op == "S" and {k_ for k_, _ in me.args[3]} == {"raw_data"}), f"other fields change: {show(me)[:300]}", w)
        b, tail = flat(r)
        has = I.ev(e.st, F("has_checksum"))
        want = [("push", C(0)), ("append", F("checksum"))] if has else [("push", C(255))]
        ck.ob("end", has is not None and tail == want, f"ends with {[show(x) for _, x in tail]}{'' if has is None else ' with' if has else ' without'} a checksum", w)
        seen.add(has)
        if b is None or b.op != "phi":
            ck.fail("events", "the records are not written", w)
        else:
            ev.add(b)
    ck.ob("ends", seen == {True, False}, f"only {seen}", w)
    for E in ev:
        heads = []
        kinds = {}
        for t, sts in I.phi_in[E].items():
            b, items = flat(t)
            for s in sts:
                if b is E:
                    event_written(ck, I, s, items, kinds, w)
                else:
                    heads.append((b, items, s))
        for m, c in [(m, {c}) for c, m in CODES.items()]:
            ck.ob("events/" + m, kinds.get(m) == c, f"event {m} written with codes {kinds.get(m)}", w)
        bases = {b for b, _, _ in heads}
        P0 = bases.pop() if len(bases) == 1 else None
        if P0 is None or P0.op != "phi":
            ck.fail("bitmap", f"the events follow {[show(b)[:100] for b, _, _ in heads]}", w)
            continue
        bitmap_written(ck, I, P0, heads, H, W, w)
    ck.floor("event kinds", len(CODES), 9)


def event_written(ck, I, s, items, kinds, w):
    # which record
    recs = {x for _, t in items for x in subterms(t) if x.op == "sel" and x.args[0] is REC}
    if len(recs) != 1:
        return ck.fail("events/record", f"an event is written from {[show(x) for x in recs]}", w)
    rec = recs.pop()
    r = full_axis(I, s, rec.args[1], [mk("len", REC)])
    ck.ob("events/order", not r, f"records: {r}", w)
    bs = [byte(t) for op, t in items if op == "push"]
    ms = to_ms(F("time", of=rec))
    exp = be_bytes(ms, 3) + be_bytes(F("x", of=rec), 2) + be_bytes(F("y", of=rec), 2)
    ck.ob("events/bytes", len(items) == 8 and bs[1:] == exp, f"an event is written as {[show(x)[:60] for x in bs]}", w)
    m = F("mouse", of=rec)
    for name in list(CODES.values()) + ["?"]:
        s2 = s
        if name == "?":
            for n in CODES.values():
                s2 = I.assume(s2, teq(m, C(n)), False) if s2 is not None else None
        else:
            s2 = I.assume(s2, teq(m, C(name)), True)
        if s2 is None:
            continue
        c = bs[0].args[0] if bs and is_int(bs[0]) else None
        if name == "?":
            ck.ob("events/unknown", c is not None and c not in CODES and c not in (0, 255), f"an unknown event is written with code {c}", w)
        else:
            kinds.setdefault(name, set()).add(c)


def bitmap_written(ck, I, P0, heads, H, W, w):
    ins = I.phi_in[P0]
    P1 = [t for t in ins if t.op == "phi" and t is not P0]
    if len(P1) != 1:
        return ck.fail("bitmap", "the mine bitmap is not written by a row loop around a cell loop", w)
    P1 = P1[0]
    # the header
    for t, sts in ins.items():
        if t in (P0, P1):
            continue
        b, items = flat(t)
        for s in sts:
            ck.ob("header", b is None and header_ok(I, s, items), f"the header is {[show(x)[:50] for _, x in items]} after {show(b)[:60] if b is not None else 'nothing'}", w)
    N = Nest(I, P1.args[0])
    if N.bad or N.outer != P0.args[0]:
        return ck.fail("bitmap/loops", (N.bad or ["the loops are not nested"])[0], w)
    # loop bounds
    n = 0
    for s in N.back:
        cells = {tuple(ix) for f in s.facts for x in subterms(f) if x.op == "sel" for b, ix in [index_chain(x)] if b is F("board") and len(ix) == 2}
        if len(cells) != 1:
            ck.fail("bitmap/cell", f"a bit is written from {len(cells)} cells", w)
            continue
        i, j = cells.pop()
        r = board_ok(I, s, i, j, [H], [W])
        ck.ob("bitmap/cells", not r, r, w)
        n += 1
    ck.ob("bitmap/some", n > 0, "no cell is written", w)
    start = {}
    for loc, o in N.init.items():
        if N.vars[loc] is not P1 and o and len(o) == 1 and is_int(next(iter(o))):
            start[loc] = next(iter(o)).args[0]

    def is_mine(s):
        for f, v in s.facts.items():
            if f.op == "eq" and C(-1) in f.args and any(index_chain(x)[0] is F("board") for x in f.args):
                return v
            if f.op == "lt" and any(index_chain(x)[0] is F("board") for x in f.args):
                return None
        return None

    def step(env, bit):
        vals = {N.vars[loc]: v for loc, v in env.items()}
        outs = set()
        for s in N.back:
            if is_mine(s) is not bool(bit) or not holds(s, vals):
                continue
            b, items = flat(at(s, P1))
            if b is not P1:
                return None
            try:
                outs.add((tuple(ceval(x, vals) & 255 for _, x in items), tuple((loc, ceval(at(s, N.vars[loc]), vals)) for loc in env)))
            except NoValue:
                return None
        return outs.pop() if len(outs) == 1 else None

    def padding(env):
        vals = {N.outer_of(loc): v for loc, v in env.items()}
        outs = set()
        for b, items, s in heads:
            if holds(s, vals):
                try:
                    outs.add(tuple(ceval(x, vals) & 255 for _, x in items))
                except NoValue:
                    return None
        return outs.pop() if len(outs) == 1 else None
    checked = 0
    for nb in range(0, 9):
        for pat in range(2 ** nb):
            env, out = dict(start), ()
            okk = True
            for q in range(nb):
                r = step(env, pat >> (nb - 1 - q) & 1)
                if r is None:
                    okk = False
                    break
                out += r[0]
                env = dict(r[1])
            checked += 1
            if not okk:
                return ck.fail("bitmap/bits", f"after the cells {pat:0{nb}b} the next step is not determined", w)
            if nb < 8:
                p_ = padding(env)
                want = ((pat << (8 - nb)) & 255,) if nb else ()
                if p_ is None or out + p_ != want:
                    return ck.fail("bitmap/padding", f"cells {pat:0{nb}b} at the end give bytes {out if p_ is None else out + p_}, not {want}", w)
            else:
                if out != (pat,):
                    return ck.fail("bitmap/bits", f"cells {pat:08b} give bytes {out}", w)
                if env != start:
                    return ck.fail("bitmap/repeats", f"after a whole byte the counters are {env}, not {start}", w)
    ck.ob("bitmap/bits", True)
    ck.floor("bit patterns followed", checked, 511)


def header_ok(I, s, items):
    if len(items) != 14 + 16:
        return False
    ops, vals = [o for o, _ in items], [x for _, x in items]
    if ops[:14] != ["push"] * 14:
        return False
    fields = [C(0), None, byte(F("height")), byte(F("width"))] + be_bytes(F("mine_num"), 2) + [byte(F("cell_pixel_size"))] + be_bytes(F("mode"), 2) \
        + be_bytes(F("static_params", "bbbv"), 2) + be_bytes(F("game_dynamic_params", "rtime_ms"), 3)
    for i, x in enumerate(fields):
        if x is not None and byte(vals[i]) is not x:
            return False
    fl = [F("is_completed"), F("is_offical"), F("is_fair")]
    for bits in range(8):
        env = {f: bool(bits >> (2 - k) & 1) for k, f in enumerate(fl)}
        s2 = s
        for f, v in env.items():
            s2 = I.assume(s2, f, v) if s2 is not None else None
        if s2 is None:
            continue
        try:
            if ceval(vals[1], env) != bits << 5:
                return False
        except NoValue:
            return False
    rest = items[14:]
    return all(rest[2 * i] == ("append", F(nm)) and rest[2 * i + 1] == ("push", C(0)) for i, nm in enumerate(STRINGS))


# ------------------------------------------------------------------------------------------- audit table
def v13(ck):
    ck.rule = ("The audit decision, analysed in every combination of software, cut-off date, fairness, record count and completion: the constant returned equals the table; the constant-checksum test "
               "is a loop over every byte whose exits are told apart.")
    lit = lambda s: mk("veclit", *[C(b) for b in s.encode()])
    SW, ST = F("software"), F("start_time")
    soft = {"Arbiter": lit("Arbiter"), "Viennasweeper": lit("Viennasweeper"), "3.2": lit("元3.2"), "3.1.7": lit("元3.1.7"), "other": None}
    num = C(0)
    for i in range(10):
        num = add(num, mul(C(10 ** (9 - i)), sub(select(ST, C(i)), C(48))))
    late = tlt(C(1682265600), num)
    few = flt(fdiv(i2f(mk("len", REC)), i2f(F("static_params", "bbbv"))), C(10.0))
    n = 0
    for sn, sv in soft.items():
        for fair in (True, False):
            for done in (True, False):
                for fw in (True, False):
                    for lt_ in (True, False):
                        if lt_ and sn != "Viennasweeper":
                            continue

                        def more(st, I):
                            for nm, v in soft.items():
                                if v is not None:
                                    st = I.assume(st, teq(SW, v), nm == sn) or st
                            for c, v in ((F("is_fair"), fair), (F("is_completed"), done), (few, fw), (late, lt_)):
                                if c is late and sn != "Viennasweeper":
                                    continue
                                st = I.assume(st, c, v) or st
                            return st
                        g, I, ex = run("is_valid", None, more=more, split=True, unroll=12)
                        ck.use(I, ex)
                        w = wh(g)
                        n += 1
                        k = f"{sn}/{'fair' if fair else 'unfair'}/{'won' if done else 'not won'}/{'few' if fw else 'enough'}{'/late' if lt_ else ''}"
                        rest = 3 if fw else 0 if done else 1
                        ck.ob(k + "/exits", bool(ex), "never decides", w)
                        for e in ex:
                            ck.ob(k + "/pure", e.st.mem.get(("P", "self"), SELF) is SELF, "the video is modified", w)
                            if sn == "other" or lt_:
                                want = 1
                            elif sn in ("Arbiter", "Viennasweeper"):
                                want = rest
                            else:
                                const = constant_checksum(ck, k, I, e.st, w)
                                if const is None:
                                    continue
                                want = 1 if const or not fair else rest
                            ck.ob(k, e.val is C(want), f"decides {show(e.val)}, the table says {want}", w)
    ck.floor("audit scenarios", n, 40)


def constant_checksum(ck, k, I, st, w):
    S_ = F("checksum")
    for f, v in st.facts.items():
        if f.op == "eq" and not v and all(x.op == "sel" and x.args[0] is S_ for x in f.args):
            a, b = [x.args[1] for x in f.args]
            i = b if a is C(0) else a
            if C(0) not in (a, b):
                break
            p = the_phi(i)
            if p is None:
                break
            # every byte before was equal
            for s in arrivals(I, p.args[0]):
                if at(s, p) is not None and the_phi(at(s, p)) is p:
                    differs = lambda t: any(x.op == "eq" and not y and all(z.op == "sel" and z.args[0] is S_ for z in x.args) for x, y in t.facts.items())
                    r = full_axis(I, s, i, [mk("len", S_), C(32)], early=differs)
                    ck.ob(k + "/bytes", not r and I.ev(s, f) is True, f"checksum bytes compared: {r or 'goes on past a different byte'}", w)
            return False
        if f.op == "lt" and not v and f.args[1] in (mk("len", S_), C(32)):
            p = the_phi(f.args[0])
            if p is not None and Family(I, p).init_terms() <= {C(0), C(1)}:
                return True
    ck.fail(k + "/constant", "decided without looking whether the checksum is constant", w)
    return None


# ------------------------------------------------------------------------------------------- saving
def v14(ck):
    ck.rule = ("Every file write reachable in the saving routine is of the video's file data to a path known not to exist on that path; the path is the name with .evf, or with (k).evf where k runs up from 2 "
               "one by one past names known to exist; every exit has written exactly once.")
    writes = []

    def h(I, st, ci, a):
        s = st.copy()
        writes.append((I.snapshot(s, a[0]), I.snapshot(s, a[1]), s))
        s.trace = s.trace + (("write", ci.line),)
        return [(s, S("Result", "Ok", {"Ok.0": UNIT}))]
    g, I, ex = run("save_to_evf_file", None, handlers={"std::fs::write": h}, split=True)
    n0 = len(writes)
    ck.use(I, ex)
    w = wh(g)
    ck.ob("exits", bool(ex), "never returns", w)
    for e in ex:
        ck.ob("once", sum(1 for x in e.st.trace if x[0] == "write") == 1 and not [x for x in e.st.trace if x[0] == "loop" and any(y[0] == "write" for y in x[1])],
              "a way through the routine does not write exactly one file", w)
        ck.ob("pure", e.st.mem.get(("P", "self"), SELF) is SELF, "the video is modified", w)
    ck.ob("writes", n0 > 0, "nothing is written", w)
    forms = set()
    for p, d, s in writes:
        ck.ob("data", strip(d) is F("raw_data"), f"writes {show(d)[:120]}", w)
        p = strip(p)
        f = name_form(I, p)
        if p.op == "phi" and candidates(ck, I, p, w):
            f = ("candidate", None)
            forms.update(("plain", "numbered"))
        ck.ob("name", f is not None, f"writes to {show(p)[:200]}", w)
        ck.ob("free", any(x.op == "exists" and strip(x.args[0]) is p and v is False for x, v in s.facts.items()), f"writes to {show(p)[:120]} without knowing that it does not exist", w)
        if f is None or f[0] == "candidate":
            continue
        forms.add(f[0])
        if f[0] == "numbered":
            ph = f[1]
            first = mk("sapp", strip(A2), C(".evf"))
            ck.ob("numbered/only-then", any(x.op == "exists" and name_form(I, strip(x.args[0])) == ("plain", None) and v is True for x, v in s.facts.items()),
                  "a numbered name is used although the plain one is not known to exist", w)
            if ph.op == "phi":
                fam = Family(I, ph)
                ck.ob("numbered/start", fam.init_terms() == {C(2)}, f"numbers start at {[show(x) for x in fam.init_terms()]}", w)
                for d_, st_, b in fam.steps:
                    if d_ is C(0):
                        continue
                    ck.ob("numbered/step", d_ is C(1) and any(x.op == "exists" and v is True and (name_form(I, strip(x.args[0])) or (0, 0)) == ("numbered", ph) for x, v in st_.facts.items()),
                          "a number is passed over whose name is not known to exist", w)
            else:
                ck.ob("numbered", ph is C(2), f"number {show(ph)}", w)
    ck.ob("forms", forms == {"plain", "numbered"}, f"names used: {forms}", w)


def candidates(ck, I, p, w):
    """one name carried round a loop: first the plain one; each time it exists, the next number's"""
    d = I.phi_in.get(p, {})
    nums = set()
    for t, sts in d.items():
        f = name_form(I, strip(t))
        if f is None or f[0] not in ("plain", "numbered") or f[0] == "numbered" and f[1].op != "phi":
            return False
        if f[0] == "numbered":
            nums.add(f[1])
            if not all(any(x.op == "exists" and v is True and strip(x.args[0]) is p for x, v in s.facts.items()) for s in sts):
                return False
        elif any(at(s, p) is not None and any(x.op == "exists" and strip(x.args[0]) is p for x in s.facts) for s in sts):
            return False
    if len(nums) != 1:
        return False
    n = nums.pop()
    fam = Family(I, n)
    ck.ob("numbered/start", fam.init_terms() == {C(2)}, f"numbers start at {[show(x) for x in fam.init_terms()]}", w)
    ck.ob("numbered/step", bool(fam.steps) and all(d_ is C(1) for d_, _, _ in fam.steps) and n.args[0] == p.args[0], "a number is passed over whose name is not known to exist", w)
    return True


def strip(t):
    while True:
        if t.op in ("ref", "*") and len(t.args) == 1:
            t = t.args[0]
        elif t.op == "call" and t.args[0].endswith("Path::new"):
            t = t.args[1][0]
        else:
            return t


def name_form(I, t):
    t = strip(t)
    parts = text_parts(t)
    if parts is None or not parts or parts[0] is not A2:
        return None
    rest = parts[1:]
    if rest == [".evf"]:
        return ("plain", None)
    if len(rest) == 3 and rest[0] == "(" and rest[2] == ").evf" and isinstance(rest[1], T):
        return ("numbered", rest[1])
    return None


def text_parts(t):
    """a text as the sequence of its literal pieces (str) and shown values (terms)"""
    t = strip(t)
    if t.op == "sapp":
        a, b = text_parts(t.args[0]), text_parts(t.args[1])
        return None if a is None or b is None else join_text(a + b)
    if t.op == "c" and isinstance(t.args[0], str):
        return [t.args[0]] if t.args[0] else []
    if t.op == "tostr":
        return [strip(t.args[0])]
    if t.op == "format":
        return fmt_parts(strip(t.args[0]))
    return [t]


def join_text(ps):
    out = []
    for p in ps:
        if out and isinstance(p, str) and isinstance(out[-1], str):
            out[-1] += p
        else:
            out.append(p)
    return out


def fmt_parts(a):
    """the pieces of a formatted text: the compiler's byte template and the shown arguments"""
    if a.op != "call" or len(a.args[1]) != 2:
        return None
    tpl, args = strip(a.args[1][0]), strip(a.args[1][1])
    if tpl.op != "veclit" or args.op != "veclit":
        return None
    args = [strip(x.args[1][0]) if x.op == "call" and x.args[0].endswith("new_display") else None for x in args.args]
    bs = [x.args[0] for x in tpl.args]
    out, i, k = [], 0, 0
    while i < len(bs):
        b = bs[i]
        if b == 0:
            break
        if b < 128:
            out.append(bytes(bs[i + 1:i + 1 + b]).decode("utf8", "replace"))
            i += 1 + b
        elif b == 192:
            if k >= len(args) or args[k] is None:
                return None
            out += text_parts(args[k])
            k += 1
            i += 1
        else:
            return None
    return join_text(out)


# ------------------------------------------------------------------------------------------- analysing a replay
_an = {}


def analysed():
    """BaseVideo::analyse with the rule machine's step kept symbolic: (function, interpreter, exits)"""
    if _an:
        return _an["x"]
    p = prog()
    mstep = fn_named(p, "step", r"MinesweeperBoard<T>").name

    def h(I, st, ci, a):
        root, path = I.target(st, a[0])
        s = st.copy()
        old, m, q = I.snapshot(s, I.read(s, root, path)), strip(I.snapshot(s, a[1])), I.snapshot(s, a[2])
        I.write(s, root, path, mk("stepped", old, m, q))
        return [(s, S("Result", "Ok", {"Ok.0": mk("level", old, m, q)}))]

    def h_new(I, st, ci, a):
        return [(st, mk("machine", I.snapshot(st, a[0])))]

    def h_gb(I, st, ci, a):
        return [(st, mk("gb.new", I.snapshot(st, a[0])))]

    def h_sgb(I, st, ci, a):
        s = st.copy()
        root, path = I.target(s, a[0])
        I.write(s, root, path, mk("gb.set", I.snapshot(s, I.read(s, root, path)), strip(I.snapshot(s, a[1]))))
        return [(s, UNIT)]
    hs = {mstep: h, fn_named(p, "GameBoard::new").name: h_gb, fn_named(p, "set_game_board", "GameBoard").name: h_sgb}
    for n in p.fns:
        if "MinesweeperBoard::<" in n and n.endswith(">::new"):
            hs[n] = h_new
    _an["x"] = run("analyse", None, impl="BaseVideo", handlers=hs, opaque=[fn_named(p, "utils::" + x).name for x in ("cal_bbbv", "cal_op", "cal_isl", "cal_cell_nums")], split=True)
    return _an["x"]


def strip_phi(I, t):
    return t


def v15(ck):
    ck.rule = ("Analysing a replay, with the rule machine's step symbolic: for every path round the event loop the machine is stepped exactly on the events that are not moves, with the event's button and its position "
               "in cells; the board stream grows by the machine's visible board exactly when the step was useful; the start mark moves to events that are useful before play; the event's record gets the "
               "surrounding board numbers, level, mouse state and counters of the machine after it; the path continues that of the latest earlier event not marked off the board. No other record or field changes.")
    g, I, ex = analysed()
    ck.use(I, ex)
    w = wh(g)
    if not ex:
        return ck.fail("exits", "never returns", w)
    # the event loop: the head whose records the exits carry
    heads = set()
    for e in ex:
        r = get_field(me_of(e), "video_action_state_recorder")
        heads.add(r)
    R = heads.pop() if len(heads) == 1 else None
    if R is None or R.op != "phi":
        return ck.fail("loop", "no loop over the records", w)
    hid = R.args[0]
    ph = {p.args[1:]: p for p in I.phi_in if p.args[0] == hid}
    Sx, Dl = ph.get((("P", "self"), ("game_board_stream",))), ph.get((("P", "self"), ("delta_time",)))
    if Sx is None or Dl is None:
        return ck.fail("loop", "the board stream or the start mark does not change in the loop", w)
    Ms = [p for p in ph.values() if p.args[1][0] != "P" and any(t.op == "machine" for t in I.phi_in[p])]
    if len(Ms) != 1:
        return ck.fail("loop", f"{len(Ms)} rule machines", w)
    M = Ms[0]
    ids = [p for p in ph.values() if set(I.phi_in[p]) == {C(0), add(p, C(1))}]
    if len(ids) != 1:
        return ck.fail("loop", f"{len(ids)} counters", w)
    ide = ids[0]
    ck.ob("init/machine", {t for t in I.phi_in[M] if t.op == "machine"} == {mk("machine", F("board"))}, "the rule machine does not start on the video's board", w)
    first = [t for t in I.phi_in[Sx] if not mentions(t, lambda x: x.op == "phi")]
    blank = first[0] if len(first) == 1 else UNIT
    ck.ob("init/stream", blank.op == "push" and blank.args[0] is STREAM and blank.args[1].op == "gb.set" and blank.args[1].args[0] is mk("gb.new", F("mine_num"))
          and strip(blank.args[1].args[1]) is mk("from_elem", mk("from_elem", C(10), F("width")), F("height")), f"the stream starts as {[show(t)[:200] for t in first]}", w)
    ck.ob("init/records", {t for t in I.phi_in[R] if not mentions(t, lambda x: x.op == "phi")} == {REC}, "the records are changed before the loop", w)
    ck.ob("init/delta", {t for t in I.phi_in[Dl] if not mentions(t, lambda x: x.op == "phi" or x.op == "sel")} <= {F("delta_time"), C(0.0)}, "the start mark is changed before the loop", w)
    for e in ex:
        r = full_axis(I, arrivals(I, hid)[-1], ide, [mk("len", REC), mk("len", R)])
        ck.ob("loop/all", not r and I.ev(e.st, tlt(ide, mk("len", REC))) is False, f"not every event is analysed: {r}", w)
    ev = select(R, ide)
    px = F("cell_pixel_size")
    pos = S("tuple", None, {"0": div(F("y", of=ev), px), "1": div(F("x", of=ev), px)})
    move = teq(F("mouse", of=ev), C("mv"))
    M1, LV = mk("stepped", M, F("mouse", of=ev), pos), mk("level", M, F("mouse", of=ev), pos)
    n = 0
    H, W_ = mul(mod(F("height"), C(65536)), px), mul(mod(F("width"), C(65536)), px)

    def outside(st, rec):
        a, b = I.ev(st, tlt(F("y", of=rec), H)), I.ev(st, tlt(F("x", of=rec), W_))
        return True if a is False and b is False else False if a is True or b is True else None
    inner = set()

    def check(st, get, pathless):
        """one way round the loop, up to its end or to the search for the event the path continues"""
        nonlocal n
        mv = I.ev(st, move)
        if mv is None:
            return ck.fail("case", "an event is analysed without looking whether it is a move", w)
        m2 = get(M)
        ck.ob("machine", m2 is (M if mv else M1), f"the rule machine becomes {show(m2)[:200]} on {'a move' if mv else 'an event'}", w)
        mm = M if mv else M1
        useful = False if mv else (lambda v: None if v is None else not v)(I.ev(st, tlt(LV, C(1))))
        s2 = get(Sx)
        if useful is None:
            ck.fail("stream", "a step is taken without looking at its level", w)
        elif useful:
            ck.ob("stream", s2 is mk("push", Sx, mk("gb.set", mk("gb.new", F("mine_num")), F("game_board", of=m2))), f"after a useful step the stream becomes {show(s2)[:300]}", w)
            inplay = variant_is(I, st, F("game_board_state", of=M), "Playing")
            want = Dl if inplay else F("time", of=ev)
            ck.ob("delta", inplay is not None and get(Dl) is want, f"the start mark becomes {show(get(Dl))[:200]}", w)
        else:
            ck.ob("stream", s2 is Sx, f"without a useful step the stream becomes {show(s2)[:200]}", w)
            ck.ob("delta", get(Dl) is Dl, f"the start mark becomes {show(get(Dl))[:200]}", w)
        b, ws = peel(get(R))
        ck.ob("records", b is R and all(i is ide and j is None for i, j, v in ws) and bool(ws), f"the records become {show(get(R))[:200]}", w)
        rec = select(get(R), ide)
        n += 1

        def want_(nm, exp, *p_):
            v = F(*p_, of=rec)
            ck.ob("record/" + nm, v is exp, f"{nm} becomes {show(v)[:200]}, expected {show(exp)[:200]}", w)
        want_("prior board", sub(mk("len", Sx), C(1)), "prior_game_board_id")
        want_("next board", mk("len", Sx) if useful else sub(mk("len", Sx), C(1)), "next_game_board_id")
        want_("level", F("useful_level", of=ev) if mv else LV, "useful_level")
        want_("mouse state", F("mouse_state", of=mm), "mouse_state")
        for x in ("left", "right", "double", "ce", "flag", "bbbv_solved"):
            want_(x, F(x, of=mm), "key_dynamic_params", x)
        for x in ("time", "mouse", "x", "y", "comments"):
            want_(x, F(x, of=ev), x)
        gs = F("game_board_state", of=mm)
        vs = [variant_is(I, st, gs, x) for x in ("Playing", "Win", "Loss")]
        on = True if True in vs else False if vs == [False] * 3 else None
        pt = F("path", of=rec)
        if pathless:
            ck.ob("path/when", on is True and outside(st, ev) is False, "the path is continued although the game is not on or the event is off the board", w)
            ck.ob("path/untouched", pt is F("path", of=ev), f"path {show(pt)[:100]}", w)
        elif on is False:
            ck.ob("path/none", pt is F("path", of=ev), f"before the game the path becomes {show(pt)[:200]}", w)
        else:
            ck.ob("path/off", on is True and outside(st, ev) is True and pt is F("path", of=select(R, sub(ide, C(1)))), f"the path becomes {show(pt)[:200]}", w)
    others = set(p for p in ph.values() if p not in (R, Sx, Dl, M, ide))
    for s in arrivals(I, hid):
        if at(s, ide) is not add(ide, C(1)):
            continue
        r2 = at(s, R)
        b = peel(r2)[0]
        if b is R:
            check(s, lambda p: at(s, p), False)
            continue
        if b.op != "phi":
            ck.fail("records", f"the records become {show(r2)[:200]}", w)
            continue
        # after the search: nothing but the path changes
        q = b.args[0]
        inner.add(q)
        for p in (Sx, Dl, M):
            ck.ob("search/keeps", at(s, p) in (mk("phi", q, *p.args[1:]), p) , f"{show(at(s, p))[:100]}", w)
        _, ws = peel(r2)
        rq = mk("phi", q, *R.args[1:])
        rec = select(r2, ide)
        ck.ob("search/records", b is rq and all(i is ide for i, j, v in ws) and set_field(rec, "path", F("path", of=select(rq, ide))) is select(rq, ide) or
              all(F(x, of=rec) is F(x, of=select(rq, ide)) for x in ("time", "mouse", "x", "y", "comments", "useful_level", "prior_game_board_id", "next_game_board_id", "mouse_state", "key_dynamic_params")),
              "more than the path changes", w)
        path_step(ck, I, s, rq, ide, rec, px, outside, q, w)
    for q in inner:
        rq = mk("phi", q, *R.args[1:])
        for s in arrivals(I, q):
            ins = [mk("phi", q, *p.args[1:]) for p in (R, Sx, Dl, M)]
            if at(s, rq) is rq:
                for p in ins:
                    if p in I.phi_in:
                        ck.ob("search/pure", at(s, p) is p, f"the search changes {p.args[2]}", w)
                continue
            check(s, lambda p: at(s, p), True)
    ck.floor("ways round the event loop", n, 20)


def variant_is(I, st, t, v):
    r = I.ev(st, mk("isv", t, v))
    return r


def path_step(ck, I, st, rq, ide, rec, px, outside, q, w):
    path = F("path", of=rec)
    recs = {x for x in subterms(path) if x.op == "." and x.args[1] == "path" and x.args[0].op == "sel"}
    if not ck.ob("path/prev", len(recs) == 1, f"path {show(path)[:200]} does not continue one earlier event", w):
        return
    src = recs.pop()
    p = src.args[0]
    fadd = lambda a, b: mk("fadd", *sorted((a, b), key=lambda t: t.id))
    ev = select(rq, ide)
    dy, dx = mk("fsub", i2f(F("y", of=ev)), i2f(F("y", of=p))), mk("fsub", i2f(F("x", of=ev)), i2f(F("x", of=p)))
    sq = powf(fadd(powf(dy, C(2.0)), powf(dx, C(2.0))), C(0.5))
    want = [fadd(src, fdiv(fmul(sq, C(16.0)), i2f(px)))]
    ck.ob("path/length", path in want, f"path becomes {show(path)[:300]}", w)
    if not ck.ob("path/record", p.args[0] is rq and outside(st, p) is False, "the event continued is not known to be on the board", w):
        return
    i = p.args[1]
    ks = [x for x in lin_parts(i)[1] if x.op == "phi" and x.args[0] == q]
    if len(ks) != 1:
        return ck.fail("path/search", f"continues event {show(i)}", w)
    k = ks[0]
    c = lin_parts(i)[1][k]
    for t, sts in I.phi_in[k].items():
        for s in sts:
            if mentions(t, lambda x: x is k):
                d = sub(t, k)
                ck.ob("path/back", is_int(d) and d.args[0] * c == -1 and s is not None and outside(s, subst(p, {})) is True, f"the search moves by {show(d)} past an event not known to be off the board", w)
            else:
                ck.ob("path/latest", add(i, mul(C(c), sub(t, k))) is sub(ide, C(1)), f"the search starts at event {show(add(i, mul(C(c), sub(t, k))))}", w)


def v16(ck):
    ck.rule = ("At every exit of the replay analysis each stored figure is value-numbered equal to its formula over the rule machine after the last event, the result time and the 3BV; the static figures are recomputed "
               "from the board; labels, dimensions, file data, time result and state are those at entry.")
    g, I, ex = analysed()
    ck.use(I, ex)
    w = wh(g)
    kinds = set()
    for e in ex:
        me = me_of(e)
        R = get_field(me, "video_action_state_recorder")
        Ms = [p for p in I.phi_in if R.op == "phi" and p.args[0] == R.args[0] and any(t.op == "machine" for t in I.phi_in[p])]
        if not ck.ob("machine", len(Ms) == 1, "no rule machine", w):
            continue
        M = Ms[0]
        t, B = RTIME, F("static_params", "bbbv")
        gd, vd, sp = get_field(me, "game_dynamic_params"), get_field(me, "video_dynamic_params"), get_field(me, "static_params")

        def want(nm, got, *exp):
            ck.ob(nm, any(same(I, e.st, got, x) for x in exp), f"{nm} becomes {show(got)[:250]}, expected {show(exp[0])[:250]}", w)
        win = mk("isv", F("game_board_state", of=M), "Win")
        ic = get_field(me, "is_completed")
        ck.ob("is_completed", ic is win or I.ev(e.st, win) is not None and is_c(ic) and ic.args[0] is I.ev(e.st, win), f"is_completed becomes {show(ic)[:200]}", w)
        cnt = {x: F(x, of=M) for x in KEYS}
        cnt["cl"] = add(add(cnt["left"], cnt["right"]), cnt["double"])
        for x, v in cnt.items():
            want(x, get_field(gd, x), v)
            want(x + "_s", get_field(gd, x + "_s"), fdiv(i2f(v), t))
        want("rtime", get_field(gd, "rtime"), t)
        want("rtime_ms", get_field(gd, "rtime_ms"), F("game_dynamic_params", "rtime_ms"))
        s, ce = F("bbbv_solved", of=M), F("ce", of=M)
        want("bbbv_solved", get_field(vd, "bbbv_solved"), s)
        want("ce", get_field(vd, "ce"), ce)
        want("ce_s", get_field(vd, "ce_s"), fdiv(i2f(ce), t))
        want("bbbv_s", get_field(vd, "bbbv_s"), fdiv(i2f(B), t))
        want("rqp", get_field(vd, "rqp"), fdiv(fmul(t, t), i2f(B)), fdiv(powf(t, C(2.0)), i2f(B)))
        want("ioe", get_field(vd, "ioe"), fdiv(i2f(s), i2f(cnt["cl"])))
        want("corr", get_field(vd, "corr"), fdiv(i2f(ce), i2f(cnt["cl"])))
        want("thrp", get_field(vd, "thrp"), fdiv(i2f(s), i2f(ce)))
        st = get_field(vd, "stnb")
        some = False
        for lv, (a, b, c, kk) in enumerate([(8, 8, 10, 47.299), (16, 16, 40, 153.73), (16, 30, 99, 435.001)]):
            s2 = e.st
            known = True
            for x, y in (("height", a), ("width", b), ("mine_num", c)):
                known = known and I.ev(s2, teq(F(x), C(y))) is True if s2 is not None else False
                s2 = I.assume(s2, teq(F(x), C(y)), True) if s2 is not None else None
            if s2 is None:
                continue
            some = True
            frac = powf(fdiv(i2f(s), i2f(B)), C(0.5))
            f1 = fmul(fdiv(C(kk), fdiv(powf(t, C(1.7)), i2f(B))), frac)
            f2 = fmul(fdiv(fmul(C(kk), i2f(B)), powf(t, C(1.7))), frac)
            ck.ob(f"stnb/{a}x{b}", known, "the level is not told apart", w)
            want(f"stnb/{a}x{b}/value", st, f1, f2)
            kinds.add(lv)
        if not some:
            want("stnb/other", st, F("video_dynamic_params", "stnb"), C(0.0))
            kinds.add("other")
        brd = mk("ref", F("board"))
        call = lambda f_: mk("call", fn_named(prog(), "utils::" + f_).name, (brd,))
        want("bbbv", get_field(sp, "bbbv"), B)
        want("op", get_field(sp, "op"), call("cal_op"))
        want("isl", get_field(sp, "isl"), call("cal_isl"))
        for i in range(9):
            want(f"cell{i}", get_field(sp, f"cell{i}"), select(call("cal_cell_nums"), C(i)))
        touched = {k_ for k_, _ in me.args[3]} if me.op == "S" else set()
        extra = touched - {"video_action_state_recorder", "game_board_stream", "delta_time", "is_completed", "game_dynamic_params", "video_dynamic_params", "static_params"}
        ck.ob("rest", me.op == "S" and all(get_field(me, x) is F(x) for x in extra), f"other fields change: {sorted(extra)}", w)
    ck.floor("levels", len(kinds), 4)
