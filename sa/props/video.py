"""BaseVideo: guards, figures, recording, the EVF file."""
from base import *
from models import wr, rd
from loops import *

GS = ["Ready", "PreFlaging", "Playing", "Win", "Loss", "Display"]
SELF = mk("init", "self")
A2, A3 = mk("init", "a2"), mk("init", "a3")


def F(*path, of=SELF):
    for x in path:
        of = get_field(of, x)
    return of


REC = F("video_action_state_recorder")
CUR = select(REC, F("current_event_id"))
LAST = select(REC, sub(mk("len", REC), C(1)))
MB = F("minesweeper_board")
NOW = F("current_time")
RTIME = F("game_dynamic_params", "rtime")


def i2f(a):
    if is_int(a):
        return C(float(a.args[0]))
    return mk("i2f", a)


def fmul(a, b):
    return mk("fmul", *sorted((a, b), key=lambda t: t.id))


def fdiv(a, b):
    return mk("fdiv", a, b)


def powf(a, b):
    return mk("f.powf", a, b)


def ok(v):
    return ("Ok", v)


ERR = ("Err", None)


def prog():
    return dump("base")


def method(nm, impl=r"BaseVideo<T>"):
    return fn_named(prog(), nm, impl)


def wh(g):
    return f"{g.file}:{g.line} {g.name.split('::')[-1]}"


def self0(gs):
    return set_field(SELF, "game_board_state", enumv("GameBoardState", gs)) if gs else SELF


def run(nm, gs, impl=r"BaseVideo<T>", handlers=None, more=None, args=None, opaque=(), split=False, unroll=0):
    g = method(nm, impl)
    I = Interp(prog(), handlers=handlers or {}, opaque=opaque)
    I.unroll = unroll
    if split:
        I.split = lambda n: True

    def setup(st, I):
        if gs:
            setfld(I, st, ("game_board_state",), enumv("GameBoardState", gs))
        if more:
            st = more(st, I) or st
        return st
    return g, I, I.analyse(g.name, setup, args)


def unchanged(ck, k, I, e, gs, w):
    v = e.st.mem.get(("P", "self"))
    ck.ob(k + "/unchanged", v is None or same(I, e.st, v, self0(gs)), f"the video is modified: {show(v)[:300]}", w)


def agree(I, st, got, want):
    """does the exit value agree with the wanted one?  want: term | ("Ok", term) | ("Err", None)"""
    if isinstance(want, tuple) and not isinstance(want, T):
        if want[0] == "Err":
            return is_err(got)
        if got.op == "phi":
            return False
        p = okv(got)
        return p is not None and same(I, st, p, want[1])
    return same(I, st, got, want)


def judge(ck, k, I, e, cases, w, got=None):
    """cases: [([(condition, truth)..], wanted)]: the exit must agree with every case whose conditions are compatible with its path"""
    got = e.val if got is None else got
    n = 0
    for conds, want in cases:
        st = e.st
        for c, t in conds:
            st = I.assume(st, c, t)
            if st is None:
                break
        if st is None:
            continue
        n += 1
        ck.ob(k, agree(I, st, got, want), f"gives {show(got)[:400]} where {'; '.join(('' if t else 'not ') + show(c)[:120] for c, t in conds) or 'always'} wants "
              f"{show(want[1])[:400] if isinstance(want, tuple) and want[1] is not None else want if isinstance(want, tuple) else show(want)[:400]}", w)
    ck.ob(k + "/some", n > 0, "no case applies", w)


# ------------------------------------------------------------------------------------------- setters
SETTERS = {"set_is_offical": "is_offical", "set_is_fair": "is_fair", "set_mode": "mode", "set_player_designator": "player_designator",
           "set_race_designator": "race_designator", "set_uniqueness_designator": "uniqueness_designator", "set_start_time": "start_time",
           "set_end_time": "end_time", "set_country": "country", "set_device_uuid": "device_uuid"}


def v01(ck):
    ck.rule = ("For each metadata setter and each of the six game states, every abstract exit either refuses and leaves the whole video value equal to the one at entry, "
               "or (exactly in the permitted states) accepts and leaves the entry value with the one field replaced by the argument.")
    spec = {nm: (fl, ("Win", "Loss")) for nm, fl in SETTERS.items()}
    spec["set_software"] = ("software", ("Win", "Loss", "Ready"))
    spec["set_pix_size"] = ("cell_pixel_size", ("Win", "Loss", "Ready"))
    n = 0
    for nm, (fl, allowed) in spec.items():
        for gs in GS:
            g, I, ex = run(nm, gs)
            ck.use(I, ex)
            n += 1
            w, k = wh(g), f"{nm}/{gs}"
            if not ex:
                ck.fail(k, "no normal exit", w)
            for e in ex:
                me = e.st.mem.get(("P", "self"), self0(gs))
                if gs in allowed:
                    ck.ob(k, not is_err(e.val) and okv(e.val) is not None, f"refused: {show(e.val)}", w)
                    ck.ob(k + "/set", same(I, e.st, me, set_field(self0(gs), fl, A2)), f"the video becomes {show(me)[:300]}", w)
                else:
                    ck.ob(k, is_err(e.val), f"accepted: {show(e.val)}", w)
                    unchanged(ck, k, I, e, gs, w)
    # the checksum
    for gs in GS:
        for has in (True, False):
            g, I, ex = run("set_checksum", gs, more=lambda st, I: I.assume(st, F("has_checksum"), has))
            ck.use(I, ex)
            n += 1
            w, k = wh(g), f"set_checksum/{gs}/{'again' if has else 'first'}"
            if not ex:
                ck.fail(k, "no normal exit", w)
            for e in ex:
                me = e.st.mem.get(("P", "self"), self0(gs))
                if gs not in ("Win", "Loss"):
                    ck.ob(k, is_err(e.val), f"accepted: {show(e.val)}", w)
                    unchanged(ck, k, I, e, gs, w)
                    continue
                ck.ob(k, okv(e.val) is not None, f"refused: {show(e.val)}", w)
                ck.ob(k + "/sum", same(I, e.st, get_field(me, "checksum"), A2), f"stored checksum is {show(get_field(me, 'checksum'))[:200]}", w)
                ck.ob(k + "/has", I.ev(e.st, get_field(me, "has_checksum")) is True, "not remembered as having a checksum", w)
                raw, raw0 = get_field(me, "raw_data"), F("raw_data")
                rest = set_field(set_field(set_field(me, "checksum", F("checksum")), "has_checksum", F("has_checksum")), "raw_data", raw0)
                ck.ob(k + "/rest", same(I, e.st, rest, self0(gs)) or all(
                    same(I, e.st, get_field(rest, f_), get_field(self0(gs), f_)) for f_, _ in (rest.args[3] if rest.op == "S" else ())),
                    f"other fields change: {show(rest)[:300]}", w)
                if not has:
                    # the last byte becomes the marker 0 and the 32 bytes follow
                    want = mk("append", store(raw0, sub(mk("len", raw0), C(1)), C(0)), A2)
                    ck.ob(k + "/raw", same(I, e.st, raw, want), f"raw data becomes {show(raw)[:300]}", w)
                else:
                    checksum_replaced(ck, k, I, e, raw, raw0, w)
    ck.floor("setter scenarios", n, 80)


def checksum_replaced(ck, k, I, e, raw, raw0, w):
    """the last 32 bytes are overwritten with the new checksum: element len-32+i := checksum[i], i = 0..32"""
    start = sub(mk("len", raw0), C(32))
    if raw in (mk("append", mk("truncate", raw0, start), A2), mk("splice", raw0, start, mk("len", raw0), A2)):
        ck.ob(k + "/raw", True)
        return
    cs = Cells(I, raw, e.st)
    ck.ob(k + "/base", bool(cs.bases) and all(same(I, s_ or e.st, b, raw0) for b, s_ in cs.bases), f"starts from {[show(b)[:80] for b, _ in cs.bases]}", w)
    ck.ob(k + "/writes", bool(cs.writes), "no byte is written", w)
    for i, j, v, s_ in cs.writes:
        p_ = sub(i, start)
        r = full_axis(I, s_, p_, [C(32)]) if j is None else "nested write"
        ck.ob(k + "/range", not r, f"byte {show(i)} written: {r}", w)
        ck.ob(k + "/byte", v is select(A2, p_), f"byte {show(i)} := {show(v)}", w)
    for p_, s_ in cs.kept:
        ck.fail(k + "/kept", "some byte is passed over", w)


# ------------------------------------------------------------------------------------------- getters: when readable
OVER = ("Win", "Loss", "Display")
GUARDS = {nm: OVER for nm in ("get_rtime", "get_rtime_ms", "get_raw_data", "get_checksum", "get_op_solved", "get_isl_solved", "get_bbbv_solved", "get_ce",
                              "get_etime", "get_bbbv_s", "get_stnb", "get_rqp", "get_qg", "get_ce_s", "get_corr", "get_thrp", "get_ioe")}
GUARDS.update({nm: ("Display",) for nm in ("get_video_start_time", "get_video_end_time", "get_x_y", "get_pix_size")})


def getter(nm, gs):
    return run(nm, gs, split=True)


def v02(ck):
    ck.rule = ("Each fallible getter, in each of the six game states: exits with Ok in exactly the states in which the figure exists (after the game or in replay; "
               "replay-only figures in replay) and with Err in all others; no getter modifies the video.")
    n = 0
    for nm, allowed in GUARDS.items():
        for gs in GS:
            g, I, ex = getter(nm, gs)
            ck.use(I, ex)
            n += 1
            w, k = wh(g), f"{nm}/{gs}"
            if not ex:
                ck.fail(k, "no normal exit", w)
            for e in ex:
                if gs in allowed:
                    ck.ob(k, e.val.op == "S" and e.val.args[1] == "Ok", f"refused: {show(e.val)[:200]}", w)
                else:
                    ck.ob(k, is_err(e.val), f"readable in this state: {show(e.val)[:200]}", w)
                unchanged(ck, k, I, e, gs, w)
    ck.floor("getter scenarios", n, 120)


# ------------------------------------------------------------------------------------------- getters: values
KEYS = ("left", "right", "double", "flag")


def key(ev, nm):
    return F("key_dynamic_params", nm, of=ev)


def v03(ck):
    ck.rule = ("For each plain figure and each game state, every exit's value is value-numbered equal to the specified source: in replay the record of the current event, "
               "live the rule machine's own counter, after the game the last record or the stored result; combined figures equal the specified combination.")
    n = 0

    def expect(nm, gs, cases, field=None):
        nonlocal n
        g, I, ex = getter(nm, gs)
        ck.use(I, ex)
        n += 1
        w, k = wh(g), f"{nm}/{gs}"
        if not ex:
            ck.fail(k, "no normal exit", w)
        for e in ex:
            judge(ck, k, I, e, cases, w)
            unchanged(ck, k, I, e, gs, w)
    for gs in GS:
        for nm in KEYS:
            expect("get_" + nm, gs, [([], key(CUR, nm) if gs == "Display" else F(nm, of=MB))])
        tot = C(0)
        for nm in KEYS[:3]:
            tot = add(tot, key(CUR, nm) if gs == "Display" else F(nm, of=MB))
        expect("get_cl", gs, [([], tot)])
        m = F("mouse_state", of=CUR if gs == "Display" else MB)
        ms = ["UpUp", "UpDown", "UpDownNotFlag", "DownUp", "Chording", "ChordingNotFlag", "DownUpAfterChording", "Undefined"]
        expect("get_mouse_state", gs, [([(mk("isv", m, v), True)], C(i + 1)) for i, v in enumerate(ms)])
        empty = teq(mk("len", REC), C(0))
        expect("get_path", gs, [([(empty, True)], C(0.0)), ([(empty, False)], F("path", of=CUR if gs == "Display" else LAST))])
        expect("get_game_board", gs, [([], F("game_board", of=select(F("game_board_stream"), F("next_game_board_id", of=CUR))) if gs == "Display" else F("game_board", of=MB))])
    for gs in OVER:
        src = CUR if gs == "Display" else LAST
        expect("get_bbbv_solved", gs, [([], ok(key(src, "bbbv_solved")))])
        expect("get_ce", gs, [([], ok(key(src, "ce")))])
        expect("get_rtime", gs, [([], ok(RTIME))])
        expect("get_rtime_ms", gs, [([], ok(F("game_dynamic_params", "rtime_ms")))])
        expect("get_raw_data", gs, [([], ok(F("raw_data")))])
        expect("get_checksum", gs, [([], ok(F("checksum")))])
    expect("get_video_start_time", "Display", [([], ok(mk("fneg", F("delta_time"))))])
    expect("get_video_end_time", "Display", [([], ok(mk("fsub", F("time", of=LAST), F("delta_time"))))])
    expect("get_pix_size", "Display", [([], ok(F("cell_pixel_size")))])
    ck.floor("figures", n, 60)


# ------------------------------------------------------------------------------------------- derived figures
def v04(ck):
    ck.rule = ("For each derived figure and each game state, every exit's value is value-numbered equal to the specified formula over the specified sources "
               "(elapsed time: the replay clock in replay, the result afterwards), including its guards against empty denominators.")
    n = 0
    B = F("static_params", "bbbv")

    def expect(nm, gs, cases):
        nonlocal n
        g, I, ex = getter(nm, gs)
        ck.use(I, ex)
        n += 1
        w, k = wh(g), f"{nm}/{gs}"
        if not ex:
            ck.fail(k, "no normal exit", w)
        for e in ex:
            judge(ck, k, I, e, cases, w)
    tiny = flt(NOW, C(0.00099))
    for gs in OVER:
        disp = gs == "Display"
        src = CUR if disp else LAST
        t = NOW if disp else RTIME
        s, ce = key(src, "bbbv_solved"), key(src, "ce")
        cl = C(0)
        for nm in KEYS[:3]:
            cl = add(cl, key(CUR, nm) if disp else F(nm, of=MB))
        z = teq(s, C(0))
        expect("get_etime", gs, [([(z, True)], ok(C(0.0))), ([(z, False)], ok(fmul(fdiv(t, i2f(s)), i2f(B))))])
        frac = powf(fdiv(i2f(s), i2f(B)), C(0.5))
        rate = ok(fdiv(i2f(s), t))
        expect("get_bbbv_s", gs, [([(tiny, True)], ok(C(0.0))), ([(tiny, False)], rate)] if disp else [([], rate)])
        h, wd, mn = F("height"), F("width"), F("mine_num")
        lv = [(8, 8, 10, 47.299), (16, 16, 40, 153.73), (16, 30, 99, 435.001)]
        cases = []
        pre = [(tiny, False)] if disp else []
        if disp:
            cases.append(([(tiny, True)], ok(C(0.0))))
        for a, b, c, kk in lv:
            v = fmul(fdiv(fmul(C(kk), i2f(B)), powf(t, C(1.7))), frac)
            cases.append((pre + [(teq(h, C(a)), True), (teq(wd, C(b)), True), (teq(mn, C(c)), True)], ok(v)))
        # any other board: one of the three numbers differs from every level
        other = tor(tor(tand(teq(h, C(8)), tand(teq(wd, C(8)), teq(mn, C(10)))), tand(teq(h, C(16)), tand(teq(wd, C(16)), teq(mn, C(40))))),
                    tand(teq(h, C(16)), tand(teq(wd, C(30)), teq(mn, C(99)))))
        cases.append((pre + [(other, False)], ok(C(0.0))))
        expect("get_stnb", gs, cases)
        expect("get_rqp", gs, [([(z, True)], ok(C(0.0))), ([(z, False)], ok(fdiv(powf(t, C(2.0)), i2f(s))))])
        expect("get_qg", gs, [([(z, True)], ok(C(0.0))), ([(z, False)], ok(fdiv(powf(t, C(1.7)), i2f(s))))])
        small = flt(t, C(0.00099))
        expect("get_ce_s", gs, [([(small, True)], ok(C(0.0))), ([(small, False)], ok(fdiv(i2f(ce), t)))])
        zc, ze = teq(cl, C(0)), teq(ce, C(0))
        expect("get_corr", gs, [([(zc, True)], ok(C(0.0))), ([(zc, False)], ok(fdiv(i2f(ce), i2f(cl))))])
        expect("get_ioe", gs, [([(zc, True)], ok(C(0.0))), ([(zc, False)], ok(fdiv(i2f(s), i2f(cl))))])
        expect("get_thrp", gs, [([(ze, True)], ok(C(0.0))), ([(ze, False)], ok(fdiv(i2f(s), i2f(ce))))])
    # rates of the counters
    for gs in GS:
        for nm in KEYS + ("cl",):
            if nm == "cl":
                v, lv = C(0), C(0)
                for x in KEYS[:3]:
                    v = add(v, key(CUR, x))
                    lv = add(lv, F(x, of=MB))
            else:
                v, lv = key(CUR, nm), F(nm, of=MB)
            g_ = f"get_{nm}_s"
            if gs == "Display":
                expect(g_, gs, [([(tiny, True)], C(0.0)), ([(tiny, False)], fdiv(i2f(v), NOW))])
            elif gs in ("Win", "Loss"):
                expect(g_, gs, [([], F("game_dynamic_params", nm + "_s"))])
            elif gs in ("Ready", "PreFlaging"):
                expect(g_, gs, [([], C(0.0))])
            else:
                live_rate(ck, g_, lv)
                n += 1
    # the clock shown
    for gs, cases in (("Ready", [([], C(0.0))]), ("Win", [([], RTIME)]), ("Loss", [([], RTIME)]), ("Display", [([], NOW)])):
        expect("get_time", gs, cases)
    for gs in ("PreFlaging", "Playing"):
        g, I, ex = getter("get_time", gs)
        ck.use(I, ex)
        for e in ex:
            got, clk = clockless(e.val)
            ms = mk("CLOCK")
            want = [fdiv(i2f(ms), C(1000.0)), fdiv(i2f(mod(ms, C(2 ** 32))), C(1000.0))] if gs == "PreFlaging" else \
                   [fdiv(i2f(sub(mod(ms, C(2 ** 32)), F("game_start_ms"))), C(1000.0))]
            ck.ob(f"get_time/{gs}", clk == 1 and any(got is x for x in want), f"shows {show(e.val)[:300]}", wh(g))
    ck.floor("derived figures", n, 60)


def clockless(t):
    """replace `milliseconds from video_start_instant to now` by a symbol; (term, number of distinct clock reads)"""
    reads = [x for x in subterms(t) if x.op == "env" and x.args[0] == "clock"]
    m = {}
    for r in reads:
        for x in subterms(t):
            if x.op == "time.Duration::as_millis" and x.args[0].op == "time.Instant::duration_since" and x.args[0].args[0] is r \
                    and x.args[0].args[1] is F("video_start_instant"):
                m[x] = mk("CLOCK")
    return subst(t, m), len(reads)


def live_rate(ck, nm, v):
    g, I, ex = getter(nm, "Playing")
    ck.use(I, ex)
    want = fdiv(fmul(i2f(v), C(1000.0)), i2f(sub(mod(mk("CLOCK"), C(2 ** 32)), F("game_start_ms"))))
    if not ex:
        ck.fail(f"{nm}/Playing", "no normal exit", wh(g))
    for e in ex:
        got, clk = clockless(e.val)
        ck.ob(f"{nm}/Playing", clk == 1 and got is want, f"gives {show(e.val)[:300]}, wanted {show(want)}", wh(g))


# ------------------------------------------------------------------------------------------- playing a game
LIVE = ("Ready", "PreFlaging", "Playing")
NEXT = {"Ready": ("Ready", "PreFlaging", "Playing", "Win", "Loss"), "PreFlaging": ("Ready", "PreFlaging", "Playing", "Win", "Loss"),
        "Playing": ("Playing", "Win", "Loss")}
MB2 = mk("init", "machine'")
LEVEL = mk("init", "level")
POS = mk("init", "a3")
EVENT = mk("init", "a2")
STREAM = F("game_board_stream")
_steps = {}


def video_step(old, new):
    """exits of BaseVideo::step when the rule machine goes from `old` to `new` (new None: the machine refuses)"""
    key_ = (old, new)
    if key_ in _steps:
        return _steps[key_]
    p = prog()
    mstep = fn_named(p, "step", r"MinesweeperBoard<T>").name

    def h(I, st, ci, a):
        root, path = I.target(st, a[0])
        I.log.append(("machine", root, path, I.snapshot(st, I.read(st, root, path)), [I.deep(st, x) for x in a[1:]]))
        s = st.copy()
        if new is None:
            I.write(s, root, path, MB2)
            return [(s, S("Result", "Err", {"Err.0": UNIT}))]
        I.write(s, root, path, set_field(MB2, "game_board_state", enumv("GameBoardState", new)))
        return [(s, S("Result", "Ok", {"Ok.0": LEVEL}))]
    g = method("step")
    def h_sgb(I, st, ci, a):
        s = st.copy()
        root, path = I.target(s, a[0])
        I.write(s, root, tuple(path) + (("F", "game_board"),), I.deep(st, a[1]))
        return [(s, UNIT)]
    I = Interp(p, handlers={mstep: h, fn_named(p, "set_game_board", "GameBoard").name: h_sgb}, opaque=[fn_named(p, "utils::" + x).name for x in ("cal_bbbv", "cal_op", "cal_isl", "cal_cell_nums")])
    I.split = lambda n: True
    I.note_ty(LEVEL, "u8")

    def setup(st, I):
        setfld(I, st, ("minesweeper_board", "game_board_state"), enumv("GameBoardState", old))
        return st
    _steps[key_] = (g, I, I.analyse(g.name, setup))
    return _steps[key_]


def each_step(ck):
    for old in LIVE:
        for new in NEXT[old]:
            g, I, ex = video_step(old, new)
            ck.use(I, ex)
            k = f"{old}>{new}"
            if not ex:
                ck.fail(k, "no normal exit", wh(g))
            yield old, new, g, I, ex, k, wh(g)


def me_of(e):
    return e.st.mem.get(("P", "self"), SELF)


def clk_of(*ts):
    """the clock reads in some terms"""
    out = []
    for t in ts:
        for x in subterms(t):
            if x.op == "env" and x.args[0] == "clock" and x not in out:
                out.append(x)
    return out


def ms_between(a, b):
    return mk("f2i", "u32", mk("f.round", fdiv(i2f(mk("time.Duration::as_micros", mk("time.Instant::duration_since", a, b))), C(1000.0))))


def started(old, new):
    return old != "Playing" and new in ("Playing", "Win", "Loss")


def rec_of(me):
    r = get_field(me, "video_action_state_recorder")
    return r.args[1] if r.op == "push" and r.args[0] is REC else None


def step_ms(old, new, e):
    """the time of the step in ms, as recorded: (allowed terms, why not)"""
    rec = rec_of(me_of(e))
    if rec is None:
        return None, "no record"
    t = get_field(rec, "time")
    cl = clk_of(t)
    restart = (old == "Ready" and new != "Ready")
    if restart:
        outs = [ms_between(c, c) for c in cl[:1]] + [C(0)]
    elif len(cl) == 1:
        outs = [ms_between(cl[0], F("video_start_instant"))]
    else:
        return None, f"the time {show(t)[:200]} is not one clock reading"
    for o in outs:
        if t is fdiv(i2f(o), C(1000.0)) or (is_int(o) and t is C(0.0)):
            return o, ""
    return None, f"recorded time {show(t)[:300]} is not the rounded milliseconds since the start of the video"


def epoch_text(t):
    """micros since the epoch, as decimal text bytes"""
    if not (t.op == "bytes" and t.args[0].op == "tostr" and t.args[0].args[0].op == "time.Duration::as_micros"):
        return False
    d = t.args[0].args[0].args[0]
    return d.op == "." and d.args[0].op == "time.SystemTime::duration_since" and d.args[0].args[0].op == "env"


def v05(ck):
    ck.rule = ("For every transition of the rule machine that ends a game, each exit of the step routine stores: the completion flag, time in ms = ms of this step minus the start mark, "
               "time in s = that/1000, 3BV/openings/islands/cell counts recomputed from the video's board, counters from the machine, rates = counter/time, estimated time; "
               "on transitions that do not end a game none of these fields changes.")
    ended = 0
    for old, new, g, I, ex, k, w in each_step(ck):
        for e in ex:
            me = me_of(e)
            gd, gd0 = get_field(me, "game_dynamic_params"), F("game_dynamic_params")
            sp, vd = get_field(me, "static_params"), get_field(me, "video_dynamic_params")
            if new not in ("Win", "Loss"):
                for fl in ("is_completed", "game_dynamic_params", "static_params", "video_dynamic_params", "end_time"):
                    ck.ob(f"{k}/{fl} kept", same(I, e.st, get_field(me, fl), F(fl)), f"{fl} changes on a step that does not end the game: {show(get_field(me, fl))[:200]}", w)
                continue
            ended += 1

            def want(nm, got, exp):
                ck.ob(f"{k}/{nm}", same(I, e.st, got, exp), f"{nm} becomes {show(got)[:300]}, expected {show(exp)[:300]}", w)
            want("is_completed", get_field(me, "is_completed"), TRUE if new == "Win" else FALSE)
            ms, why = step_ms(old, new, e)
            ck.ob(f"{k}/clock", ms is not None, why, w)
            if ms is None:
                continue
            gsm = get_field(me, "game_start_ms")
            rms = sub(ms, gsm)
            t = fdiv(i2f(rms), C(1000.0))
            if is_int(rms):
                t = C(rms.args[0] / 1000.0) if get_field(gd, "rtime").op == "c" else t
            want("rtime_ms", get_field(gd, "rtime_ms"), rms)
            want("rtime", get_field(gd, "rtime"), t)
            brd = mk("ref", F("board"))
            call = lambda f_: mk("call", fn_named(prog(), "utils::" + f_).name, (brd,))
            bv = call("cal_bbbv")
            want("bbbv", get_field(sp, "bbbv"), bv)
            want("op", get_field(sp, "op"), call("cal_op"))
            want("isl", get_field(sp, "isl"), call("cal_isl"))
            for i in range(9):
                want(f"cell{i}", get_field(sp, f"cell{i}"), select(call("cal_cell_nums"), C(i)))
            for nm in KEYS:
                want(nm, get_field(gd, nm), F(nm, of=MB2))
                want(nm + "_s", get_field(gd, nm + "_s"), fdiv(i2f(F(nm, of=MB2)), t))
            cl = add(add(F("left", of=MB2), F("right", of=MB2)), F("double", of=MB2))
            want("cl", get_field(gd, "cl"), cl)
            want("cl_s", get_field(gd, "cl_s"), fdiv(i2f(cl), t))
            want("etime", get_field(vd, "etime"), t if new == "Win" else fmul(fdiv(t, i2f(F("bbbv_solved", of=MB2))), i2f(bv)))
            for fl in ("path",):
                want(fl, get_field(gd, fl), get_field(gd0, fl))
            ck.ob(f"{k}/end_time", epoch_text(get_field(me, "end_time")), f"end time becomes {show(get_field(me, 'end_time'))[:200]}", w)
    ck.floor("game-ending exits", ended, 6)


def v06(ck):
    ck.rule = ("For every transition of the rule machine: the start instant is set to this step's clock reading exactly when the video starts (first accepted step leaving the ready state), "
               "the start mark and the wall-clock start time are set exactly when the game starts (first opening), and every record carries the rounded ms between step and start instant.")
    n = 0
    for old, new, g, I, ex, k, w in each_step(ck):
        for e in ex:
            n += 1
            me = me_of(e)
            vs, gsm, stt = (get_field(me, x) for x in ("video_start_instant", "game_start_ms", "start_time"))
            restart = old == "Ready" and new != "Ready"
            if restart:
                ck.ob(k + "/start", vs.op == "env" and vs.args[0] == "clock", f"the start instant becomes {show(vs)[:100]}, not this step's clock reading", w)
                rec = rec_of(me)
                if rec is not None:
                    cl = clk_of(get_field(rec, "time"))
                    ck.ob(k + "/start-clock", not cl or cl == [vs], "the start instant and the record use different clock readings", w)
            else:
                ck.ob(k + "/start", vs is F("video_start_instant"), f"the start instant is moved to {show(vs)[:100]}", w)
            if new == "Ready":
                ck.ob(k + "/mark", gsm is F("game_start_ms") and stt is F("start_time"), "start mark or start time changes", w)
                continue
            ms, why = step_ms(old, new, e)
            ck.ob(k + "/time", ms is not None, why, w)
            if started(old, new):
                ck.ob(k + "/mark", ms is not None and same(I, e.st, gsm, ms), f"the start mark becomes {show(gsm)[:200]}", w)
                ck.ob(k + "/start_time", epoch_text(stt), f"start time becomes {show(stt)[:200]}", w)
            else:
                ck.ob(k + "/mark", gsm is F("game_start_ms"), f"the start mark is moved to {show(gsm)[:200]}", w)
                ck.ob(k + "/start_time", stt is F("start_time"), f"the start time is changed to {show(stt)[:200]}", w)
    ck.floor("exits", n, 20)


def v07(ck):
    ck.rule = ("For every transition of the rule machine: the machine is consulted exactly once, with the event and the cell under the pixel position; a refusal is passed on and nothing is recorded; "
               "an accepted event appends exactly one record carrying event, position, level, the machine's state and counters after the event, and the ids of the boards before and after it; "
               "a board is appended exactly when the level is at least 1 (after the covered board, appended once at the start); returning to the ready state clears both lists.")
    n = 0
    PIX = F("cell_pixel_size")
    for old in LIVE:
        g, I, ex = video_step(old, None)
        ck.use(I, ex)
        if not ex:
            ck.fail(f"{old}>refused", "no normal exit", wh(g))
        for e in ex:
            me = me_of(e)
            ck.ob(f"{old}>refused", is_err(e.val), f"a refused event gives {show(e.val)[:100]}", wh(g))
            for fl in ("video_action_state_recorder", "game_board_stream", "game_board_state", "start_time", "video_start_instant", "game_start_ms"):
                got = get_field(me, fl)
                ck.ob(f"{old}>refused/{fl}", same(I, e.st, got, F(fl)), f"{fl} changes on a refused event", wh(g))
    for gs in ("Win", "Loss", "Display"):
        p = prog()
        g = method("step")
        called = []

        def h(I, st, ci, a):
            called.append(1)
            return [(st, S("Result", "Ok", {"Ok.0": LEVEL}))]
        I = Interp(p, handlers={fn_named(p, "step", r"MinesweeperBoard<T>").name: h})

        def setup(st, I):
            setfld(I, st, ("minesweeper_board", "game_board_state"), enumv("GameBoardState", gs))
            return st
        ex = I.analyse(g.name, setup)
        ck.use(I, ex)
        ck.ob(f"{gs}>/machine", not called, "the machine is stepped after the end", wh(g))
        for e in ex:
            n += 1
            ck.ob(f"{gs}>", okv(e.val) is C(0), f"a step after the end gives {show(e.val)[:100]}", wh(g))
            v = e.st.mem.get(("P", "self"))
            ck.ob(f"{gs}>/unchanged", v is None or same(I, e.st, v, set_field(SELF, "minesweeper_board", set_field(MB, "game_board_state", enumv("GameBoardState", gs)))),
                  f"a step after the end changes the video: {show(v)[:200]}", wh(g))
    g, I, ex = run("set_game_board", None, impl="GameBoard")
    ck.use(I, ex)
    for e in ex:
        me = me_of(e)
        ck.ob("set_game_board", get_field(me, "game_board") is mk("init", "a2") or get_field(me, "game_board") is mk("*", mk("init", "a2")), f"the board becomes {show(get_field(me, 'game_board'))[:100]}", wh(g))
        ck.ob("set_game_board/mines", get_field(me, "mine_num") is F("mine_num"), "the mine count changes", wh(g))
    ck.ob("set_game_board/exits", bool(ex), "no normal exit", wh(g))
    for old, new, g, I, ex, k, w in each_step(ck):
        lg = {(x[1], x[2], x[3], tuple(x[4])) for x in I.log if x[0] == "machine"}
        cell = [div(F("0", of=POS), PIX), div(F("1", of=POS), PIX)]
        for root, path, m0, args in lg:
            ck.ob(k + "/machine", m0 is set_field(MB, "game_board_state", enumv("GameBoardState", old)) and len(args) == 2
                  and args[0] in (EVENT, mk("*", EVENT)) and get_field(args[1], "0") is cell[0] and get_field(args[1], "1") is cell[1],
                  f"the machine is stepped with {show(args[0])[:60]}, {show(args[1])[:120]}", w)
        ck.ob(k + "/machine-once", len(lg) == 1, f"the machine is stepped {len(lg)} times", w)
        for e in ex:
            n += 1
            me = me_of(e)
            ck.ob(k + "/result", okv(e.val) is C(0), f"result {show(e.val)[:100]}", w)
            ck.ob(k + "/state", variant(I, e.st, get_field(me, "game_board_state")) == new, f"state {show(get_field(me, 'game_board_state'))[:80]}", w)
            ck.ob(k + "/machine kept", get_field(me, "minesweeper_board") is set_field(MB2, "game_board_state", enumv("GameBoardState", new)), "the machine is modified besides its step", w)
            rec, stream = get_field(me, "video_action_state_recorder"), get_field(me, "game_board_stream")
            for fl in ("width", "height", "mine_num", "board", "cell_pixel_size", "mode", "level", "software", "is_offical", "is_fair", "nf", "raw_data", "checksum", "has_checksum",
                       "allow_set_rtime", "can_analyse", "player_designator", "race_designator", "uniqueness_designator", "country", "device_uuid", "current_event_id", "current_time"):
                ck.ob(f"{k}/{fl}", get_field(me, fl) is F(fl), f"{fl} changes: {show(get_field(me, fl))[:120]}", w)
            if new == "Ready":
                for nm, v in (("recorder", rec), ("stream", stream)):
                    ck.ob(f"{k}/{nm}", is_int(I.length(e.st, v)) and I.length(e.st, v) is C(0), f"{nm} not cleared: {show(v)[:100]}", w)
                continue
            r = rec_of(me)
            ck.ob(k + "/record", r is not None, f"the recorder becomes {show(rec)[:200]}: not exactly one record appended", w)
            if r is None:
                continue
            rexp = {"mouse": None, "x": mod(F("1", of=POS), C(65536)), "y": mod(F("0", of=POS), C(65536)), "useful_level": LEVEL, "mouse_state": F("mouse_state", of=MB2)}
            for fl, v in rexp.items():
                got = get_field(r, fl)
                ok_ = got in (mk("*", EVENT), EVENT) if v is None else same(I, e.st, got, v)
                ck.ob(f"{k}/record.{fl}", ok_, f"recorded {fl} is {show(got)[:200]}", w)
            for fl in KEYS + ("ce", "bbbv_solved"):
                got = get_field(get_field(r, "key_dynamic_params"), fl)
                ck.ob(f"{k}/record.{fl}", same(I, e.st, got, F(fl, of=MB2)), f"recorded {fl} is {show(got)[:200]}", w)
            # boards
            hi = I.assume(e.st, tlt(LEVEL, C(1)), False)
            lo = I.assume(e.st, tlt(LEVEL, C(1)), True)
            for st, up in ((hi, True), (lo, False)):
                if st is None:
                    continue
                b, items = stream, []
                while b.op == "push":
                    items.append(b.args[1])
                    b = b.args[0]
                items.reverse()
                emp = I.ev(st, teq(mk("len", STREAM), C(0)))
                if not (b is STREAM or (emp is True and b.op == "veclit" and not b.args)):
                    ck.fail(k + "/stream", f"the board list becomes {show(stream)[:200]}", w)
                    continue
                first = None
                if old == "Playing":
                    first = False
                elif emp is not None:
                    first = emp
                if first is None:
                    ck.fail(k + "/first", "does not distinguish whether the covered board is already there", w)
                    continue
                ck.ob(k + "/boards", len(items) == first + up, f"{len(items)} boards appended, expected {first + up} (level {'>=1' if up else '0'}, first {first})", w)
                if len(items) != first + up:
                    continue
                if first:
                    gb = get_field(items[0], "game_board")
                    ck.ob(k + "/covered", gb is mk("from_elem", mk("from_elem", C(10), F("width")), F("height")), f"the first board is {show(gb)[:100]}", w)
                if up:
                    gb = get_field(items[-1], "game_board")
                    ck.ob(k + "/after", gb is F("game_board", of=MB2), f"the appended board is {show(gb)[:100]}", w)
                for it in items:
                    ck.ob(k + "/mines", same(I, st, get_field(it, "mine_num"), F("mine_num")), "the appended board has a wrong mine count", w)
                ln = I.length(st, stream)
                ck.ob(k + "/next", same(I, st, get_field(r, "next_game_board_id"), sub(ln, C(1))), f"board after: {show(get_field(r, 'next_game_board_id'))[:80]} of {show(ln)}", w)
                ck.ob(k + "/prior", same(I, st, get_field(r, "prior_game_board_id"), sub(ln, C(1 + up))), f"board before: {show(get_field(r, 'prior_game_board_id'))[:80]} of {show(ln)}", w)
    ck.floor("exits", n, 20)


# ------------------------------------------------------------------------------------------- path length
def v08(ck):
    ck.rule = ("For every transition of the rule machine: the path stored in the new record is 0 while the game had not started; otherwise it is path(r) + distance(position, r)*16/pixel size, where r is the "
               "latest earlier record inside the board: the search starts at the last record, moves back one at a time, passes only records known to lie outside and stops at one known to lie inside.")
    n = 0
    PIX, H, W_ = F("cell_pixel_size"), F("height"), F("width")
    for old, new, g, I, ex, k, w in each_step(ck):
        if new == "Ready":
            continue
        for e in ex:
            r = rec_of(me_of(e))
            if r is None:
                continue
            n += 1
            path = get_field(r, "path")
            if old != "Playing":
                ck.ob(k + "/zero", path is C(0.0), f"path {show(path)[:200]} before the game", w)
                continue
            recs = [x for x in subterms(path) if x.op == "." and x.args[1] == "path" and x.args[0].op == "sel" and x.args[0].args[0] is REC]
            if not ck.ob(k + "/prev", len(set(recs)) == 1, f"path {show(path)[:300]} does not continue one earlier record", w):
                continue
            p = recs[0].args[0]
            i = p.args[1]
            px, py = F("x", of=p), F("y", of=p)
            dy, dx = mk("fsub", i2f(F("0", of=POS)), i2f(py)), mk("fsub", i2f(F("1", of=POS)), i2f(px))
            def fadd(a, b):
                return mk("fadd", *sorted((a, b), key=lambda t: t.id))
            want = []
            for sx, sy in ((dx, dy), (mk("fsub", i2f(px), i2f(F("1", of=POS))), mk("fsub", i2f(py), i2f(F("0", of=POS))))):
                want.append(fadd(recs[0], fdiv(fmul(powf(fadd(powf(sy, C(2.0)), powf(sx, C(2.0))), C(0.5)), C(16.0)), i2f(PIX))))
            ck.ob(k + "/length", any(path is x for x in want), f"path becomes {show(path)[:500]}", w)

            def inside(st, j):
                rr = select(REC, j)
                a, b = I.ev(st, tlt(F("y", of=rr), mul(H, PIX))), I.ev(st, tlt(F("x", of=rr), mul(W_, PIX)))
                return True if a is True and b is True else False if a is False or b is False else None
            ck.ob(k + "/inside", inside(e.st, i) is True, "the record continued is not known to lie inside the board", w)
            fam = Family(I, the_phi(i)) if the_phi(i) is not None else None
            off = sub(i, the_phi(i)) if fam else None
            last = sub(mk("len", REC), C(1))
            if fam is None:
                ck.ob(k + "/latest", i is last, f"continues record {show(i)}", w)
                continue
            ck.ob(k + "/latest", {add(x, off) for x in fam.init_terms()} == {last}, f"the search starts at {[show(add(x, off)) for x in fam.init_terms()]}", w)
            for d, st, q in fam.steps:
                ck.ob(k + "/back", d is C(-1) and inside(st, add(q, off)) is False, f"the search moves by {show(d)} past a record not known to lie outside", w)
    ck.floor("records", n, 15)


# ------------------------------------------------------------------------------------------- replay navigation
def v09(ck):
    ck.rule = ("set_current_event_id: only in replay, sets the event and the clock of that event. set_current_time: on every exit the clock is the requested time clamped to [start, end], and the path together with "
               "the loop invariants knows that the current event is due (its time is not later) and is the last one or followed by one not yet due, or is the first one and not due. "
               "get_x_y: position of the latest event up to the current one that lies inside, scaled. Playback scale: requested pixel size / recorded one.")
    for gs in GS:
        g, I, ex = run("set_current_event_id", gs)
        ck.use(I, ex)
        w, k = wh(g), f"set_current_event_id/{gs}"
        ck.ob(k + "/exits", bool(ex), "no normal exit", w)
        for e in ex:
            me = e.st.mem.get(("P", "self"), self0(gs))
            if gs != "Display":
                ck.ob(k, is_err(e.val), "accepted outside replay", w)
                unchanged(ck, k, I, e, gs, w)
                continue
            ck.ob(k, okv(e.val) is not None, "refused", w)
            want = set_field(set_field(self0(gs), "current_event_id", A2), "current_time", mk("fsub", F("time", of=select(REC, A2)), F("delta_time")))
            ck.ob(k + "/set", same(I, e.st, me, want), f"the video becomes {show(me)[:300]}", w)
    g, I, ex = run("set_current_time", "Display", split=True)
    ck.use(I, ex)
    w, k = wh(g), "set_current_time"
    D = F("delta_time")
    lo, hi = mk("fneg", D), mk("fsub", F("time", of=LAST), D)
    T_ = mk("fadd", *sorted((A2, D), key=lambda t: t.id))
    ck.ob(k + "/exits", bool(ex), "no normal exit", w)
    for e in ex:
        me = me_of(e)
        rest = me
        for fl in ("current_time", "current_event_id"):
            rest = set_field(rest, fl, F(fl))
        ck.ob(k + "/rest", same(I, e.st, rest, self0("Display")), f"other fields change: {show(rest)[:200]}", w)
        # the clock
        ct = get_field(me, "current_time")
        todo, seen = [(ct, e.st)], set()
        while todo:
            t, st = todo.pop()
            if t.op == "phi":
                if t not in seen:
                    seen.add(t)
                    todo += [(u, s) for u, ss in I.phi_in.get(t, {}).items() for s in ss]
                continue
            def less(x, y):
                r, q = st.facts.get(flt(x, y)), st.facts.get(fle(y, x))
                return r if r is not None else None if q is None else not q
            # no number is both below and not below another
            if any(st.facts.get(flt(x, y)) is not None and st.facts.get(flt(x, y)) is st.facts.get(fle(y, x)) for x, y in ((A2, lo), (hi, A2))):
                continue
            below, over = less(A2, lo), less(hi, A2)
            if below is False and over is None and st.facts.get(tor(tnot(fle(lo, A2)), tnot(fle(A2, hi)))) is True:
                over = True  # not within, and not below
            above = over if not below else less(hi, lo)
            both = lambda op, x, y: (mk(op, x, y), mk(op, y, x))
            if t is mk("f.clamp", A2, lo, hi) or any(t in both(o, x, v) for o, q, u, v in (("f.min", "f.max", lo, hi), ("f.max", "f.min", hi, lo)) for x in both(q, A2, u)):
                continue
            either = t is hi if over else below is True and t is lo and less(hi, lo) is not True  # the start is not after the end: which bound is asked first is immaterial
            ck.ob(k + "/clamp", either or below is not None and above is not None and t is (hi if above else lo if below else A2),
                  f"the clock becomes {show(t)[:100]} where the request is {'below' if below else 'not below' if below is False else '?'} the start and {'above' if above else 'not above' if above is False else '?'} the end", w)
        v = get_field(me, "current_event_id")

        def due(st, i):
            return le(st, F("time", of=select(REC, i)), T_) is True

        def late(st, i):
            return le(st, F("time", of=select(REC, i)), T_) is False

        def last(st, i):
            return I.ev(st, tlt(add(i, C(1)), mk("len", REC))) is False
        a = by_phi(I, e.st, v, due) and (last(e.st, v) or by_phi(I, e.st, add(v, C(1)), late))
        b = same(I, e.st, v, C(0)) and by_phi(I, e.st, v, late)
        ck.ob(k + "/event", a or b, f"stops at event {show(v)} which is not known to be the last one due", w)
    g, I, ex = run("get_x_y", "Display", split=True)
    ck.use(I, ex)
    w, k = wh(g), "get_x_y"
    K = F("video_playing_pix_size_k")
    ck.ob(k + "/exits", bool(ex), "no normal exit", w)
    lim = mul(F("cell_pixel_size"), mod(F("width"), C(65536)))
    for e in ex:
        v = okv(e.val)
        if not ck.ob(k, v is not None and v.op == "S", f"gives {show(e.val)[:200]}", w):
            continue
        rs = {x.args[0] for x in subterms(v) if x.op == "." and x.args[1] in ("x", "y") and x.args[0].op == "sel" and x.args[0].args[0] is REC}
        if not ck.ob(k + "/record", len(rs) == 1, f"gives {show(v)[:300]}", w):
            continue
        r = rs.pop()
        for nm, fl in (("0", "x"), ("1", "y")):
            ck.ob(k + "/" + fl, get_field(v, nm) is mk("f2i", "u16", fmul(i2f(F(fl, of=r)), K)), f"{fl} is {show(get_field(v, nm))[:200]}", w)
        i = r.args[1]

        def on(st, j):
            return I.ev(st, tlt(F("x", of=select(REC, j)), lim))
        ck.ob(k + "/on", on(e.st, i) is True, "the event reported is not known to lie inside", w)
        back = sub(F("current_event_id"), i)      # 0, 1, 2 ...
        p = the_phi(back) or the_phi(i)
        if p is None:
            ck.ob(k + "/latest", i is F("current_event_id"), f"reports event {show(i)}", w)
            continue
        fam = Family(I, p)
        at = (lambda q: subst(i, {p: q}))
        ck.ob(k + "/latest", {at(x) for x in fam.init_terms()} == {F("current_event_id")}, "the search does not start at the current event", w)
        for d, st, q in fam.steps:
            nxt = at(add(q, d))
            ck.ob(k + "/back", sub(nxt, at(q)) is C(-1) and on(st, at(q)) is False, f"the search goes from {show(at(q))} to {show(nxt)} past an event not known to lie outside", w)
    g, I, ex = run("set_video_playing_pix_size", "Display")
    ck.use(I, ex)
    for e in ex:
        ck.ob("scale", same(I, e.st, me_of(e), set_field(self0("Display"), "video_playing_pix_size_k", fdiv(i2f(A2), i2f(F("cell_pixel_size"))))), f"the video becomes {show(me_of(e))[:200]}", wh(g))
    ck.ob("scale/exits", bool(ex), "no normal exit", wh(g))


# ------------------------------------------------------------------------------------------- taking a board
SB = r"BaseVideo<.*SafeBoard>"
LEVELS = [(8, 8, 10, 3), (16, 16, 40, 4), (16, 30, 99, 5)]


def level_cases(h, wd, mn):
    other = None
    cases = []
    for a, b, c, lv in LEVELS:
        g = [(teq(h, C(a)), True), (teq(wd, C(b)), True), (teq(mn, C(c)), True)]
        cases.append((g, C(lv)))
        o = tand(g[0][0], tand(g[1][0], g[2][0]))
        other = o if other is None else tor(other, o)
    cases.append(([(other, False)], C(6)))
    return cases


def flows(I, t, st):
    """(value, state) pairs a value can come from, through joins"""
    out, seen, todo = [], set(), [(t, st)]
    while todo:
        u, s = todo.pop()
        if u.op == "phi":
            if u not in seen:
                seen.add(u)
                todo += [(x, y) for x, ss in I.phi_in.get(u, {}).items() for y in ss]
        else:
            out.append((u, s))
    return out


def judge_value(ck, k, I, t, st, cases, w):
    """every value that can flow into t agrees with the case its path satisfies"""
    for u, s in flows(I, t, st):
        n = 0
        for conds, want in cases:
            s2 = s
            for c, b in conds:
                s2 = I.assume(s2, c, b)
                if s2 is None:
                    break
            if s2 is None:
                continue
            n += 1
            ck.ob(k, same(I, s2, u, want), f"is {show(u)[:200]} where it should be {show(want)[:200]}", w)
        ck.ob(k + "/some", n > 0, "no case applies", w)


def v10(ck):
    ck.rule = ("set_board: refused, without any change, unless play is possible (ready, pre-flagging, playing) and the board has the video's dimensions; otherwise board, rule machine's board, mine number (counted over "
               "every cell), dimensions and level are those of the argument and nothing else changes. Constructor and reset: every field compared with the specified fresh value.")
    p = prog()
    sbn = fn_named(p, "SafeBoard::new", "SafeBoard$").name
    n = 0
    for gs in GS:
        g, I, ex = run("set_board", gs, impl=SB, split=True, opaque=[sbn])
        ck.use(I, ex)
        w, k = wh(g), f"set_board/{gs}"
        rows, cols = mk("len", A2), mk("len", select(A2, C(0)))
        ck.ob(k + "/exits", bool(ex), "no normal exit", w)
        for e in ex:
            n += 1
            me = e.st.mem.get(("P", "self"), self0(gs))
            fits = I.ev(e.st, tand(teq(F("width"), cols), teq(F("height"), rows)))
            if gs not in LIVE or fits is False:
                ck.ob(k, is_err(e.val), "board accepted", w)
                unchanged(ck, k, I, e, gs, w)
                continue
            ck.ob(k, okv(e.val) is not None and fits is True, f"gives {show(e.val)[:100]} without knowing that the dimensions agree" if fits is None else f"refused: {show(e.val)[:100]}", w)
            if okv(e.val) is None:
                continue
            nb = mk("call", sbn, (A2,))
            ck.ob(k + "/board", get_field(me, "board") is nb, f"board becomes {show(get_field(me, 'board'))[:100]}", w)
            ck.ob(k + "/machine", get_field(me, "minesweeper_board") is set_field(MB, "board", nb), f"the machine becomes {show(get_field(me, 'minesweeper_board'))[:200]}", w)
            for nm, v in (("height", rows), ("width", cols)):
                ck.ob(f"{k}/{nm}", same(I, e.st, get_field(me, nm), v), f"{nm} becomes {show(get_field(me, nm))[:100]}", w)
            mn = get_field(me, "mine_num")
            for b in tally(I, mn, e.st, A2, lambda s, i, j: I.ev(s, teq(select(select(A2, i), j), C(-1)))):
                ck.fail(k + "/mines", "mine number: " + b, w)
            ck.ob(k + "/mines", True)
            judge_value(ck, k + "/level", I, get_field(me, "level"), e.st, level_cases(rows, cols, mn), w)
            rest = me
            for fl in ("board", "minesweeper_board", "height", "width", "mine_num", "level"):
                rest = set_field(rest, fl, F(fl))
            ck.ob(k + "/rest", same(I, e.st, rest, self0(gs)), f"other fields change: {show(rest)[:200]}", w)
    ck.floor("set_board exits", n, 8)
    fresh_video(ck, p)


STRINGS = ("software", "player_designator", "race_designator", "uniqueness_designator", "start_time", "end_time", "country", "device_uuid", "raw_data")
ZERO = {"is_completed": FALSE, "is_offical": FALSE, "is_fair": FALSE, "nf": FALSE, "mode": C(0), "game_start_ms": C(0), "delta_time": C(0.0), "current_time": C(0.0), "current_event_id": C(0),
        "offset": C(0), "can_analyse": FALSE, "has_checksum": FALSE, "allow_set_rtime": FALSE, "video_playing_pix_size_k": C(1.0)}


def is_empty(I, st, v):
    n = I.length(st, v)
    return n is C(0)


def all_zero(I, st, v):
    """a structure of counters and times, all zero"""
    if v.op == "S":
        return v.args[2] is None and bool(v.args[3]) and all(all_zero(I, st, x) for _, x in v.args[3])
    return v in (C(0), C(0.0), FALSE)


def fresh_video(ck, p):
    mbn = [f for f in p.fns.values() if f.impl_self and "MinesweeperBoard<" in f.impl_self and f.name.endswith("::new") and f.argc == 1]
    names = [f.name for f in mbn] + [fn_named(p, "SafeBoard::new", "SafeBoard$").name]
    g = method("new_before_game")
    I = Interp(p, opaque=names + [fn_named(p, "utils::cal_bbbv").name])
    I.split = lambda n_: True
    ex = I.analyse(g.name)
    ck.use(I, ex)
    w, k = wh(g), "new_before_game"
    brd, pix = mk("init", "a1"), mk("init", "a2")
    ck.ob(k + "/exits", bool(ex), "no normal exit", w)
    for e in ex:
        v = e.val
        sb = mk("call", names[-1], (brd,))
        ck.ob(k + "/board", get_field(v, "board") is sb, f"board {show(get_field(v, 'board'))[:100]}", w)
        m = get_field(v, "minesweeper_board")
        ck.ob(k + "/machine", m.op == "call" and m.args[0] in names and m.args[1] == (sb,), f"machine {show(m)[:200]}", w)
        ck.ob(k + "/state", variant(I, e.st, get_field(v, "game_board_state")) == "Ready", "not ready", w)
        ck.ob(k + "/pix", get_field(v, "cell_pixel_size") is pix, "pixel size", w)
        sp = get_field(v, "static_params")
        bv = get_field(sp, "bbbv")
        ck.ob(k + "/bbbv", bv.op == "call" and bv.args[0].endswith("cal_bbbv") and bv.args[1] == (mk("ref", brd),), f"3BV {show(bv)[:100]}", w)
        for b in tally(I, get_field(v, "mine_num"), e.st, brd, lambda s, i, j: I.ev(s, teq(select(select(brd, i), j), C(-1)))):
            ck.fail(k + "/mines", "mine number: " + b, w)
        for nm in ("row", "column"):
            pass
        for fl, z in ZERO.items():
            ck.ob(f"{k}/{fl}", same(I, e.st, get_field(v, fl), z), f"{fl} starts as {show(get_field(v, fl))[:80]}", w)
        for fl in STRINGS + ("video_action_state_recorder", "game_board_stream"):
            ck.ob(f"{k}/{fl}", is_empty(I, e.st, get_field(v, fl)), f"{fl} starts as {show(get_field(v, fl))[:80]}", w)
        for fl in ("game_dynamic_params", "video_dynamic_params"):
            ck.ob(f"{k}/{fl}", all_zero(I, e.st, get_field(v, fl)), f"{fl} starts as {show(get_field(v, fl))[:200]}", w)
    for impl in (SB, r"BaseVideo<.*Vec<.*Vec<i32"):
        g, I, ex = run("reset", None, impl=impl, split=True, opaque=names)
        ck.use(I, ex)
        w, k = wh(g), "reset/" + ("encoded" if impl is SB else "plain")
        r, c, px = (mk("init", f"a{i}") for i in (2, 3, 4))
        grid = mk("from_elem", mk("from_elem", C(0), c), r)
        ck.ob(k + "/exits", bool(ex), "no normal exit", w)
        for e in ex:
            v = me_of(e)
            ck.ob(k + "/state", variant(I, e.st, get_field(v, "game_board_state")) == "Ready", "not ready", w)
            m = get_field(v, "minesweeper_board")
            ck.ob(k + "/machine", m.op == "call" and m.args[0] in names and m.args[1] in ((grid,), (mk("call", names[-1], (grid,)),)), f"machine {show(m)[:200]}", w)
            for nm, x in (("height", r), ("width", c), ("cell_pixel_size", px), ("has_checksum", FALSE)):
                ck.ob(f"{k}/{nm}", same(I, e.st, get_field(v, nm), x), f"{nm} becomes {show(get_field(v, nm))[:80]}", w)
            for fl in ("video_action_state_recorder", "game_board_stream", "raw_data"):
                ck.ob(f"{k}/{fl}", is_empty(I, e.st, get_field(v, fl)), f"{fl} becomes {show(get_field(v, fl))[:80]}", w)
            for fl in ("game_dynamic_params", "video_dynamic_params", "static_params"):
                ck.ob(f"{k}/{fl}", all_zero(I, e.st, get_field(v, fl)), f"{fl} becomes {show(get_field(v, fl))[:200]}", w)
            for fl in STRINGS[:3] + ("uniqueness_designator", "country", "device_uuid", "mode"):
                ck.ob(f"{k}/{fl} kept", get_field(v, fl) is F(fl), f"{fl} changes on reset", w)
