"""Replay files of other programs: AVF (Arbiter), RMV (Viennasweeper), MVF (Clone)."""
from ai import State
from props.evf import *
from props.mines import *

EVENTS = ("mv", "lc", "lr", "rc", "rr", "mc", "mr", "sc")


def is_char(I, st, b, ch):
    """is the byte b known to be the character / known not to be"""
    for c in (teq(mk("cast", "char", b), C(ch)), teq(b, C(ch)), teq(b, C(ord(ch)))):
        v = I.ev(st, c)
        if v is not None:
            return v
    for f, v in st.facts.items():
        if f.op == "eq" and any(unchar(x) is b for x in f.args) and any(x.op == "c" and x.args[0] in (ord(ch), ch) for x in f.args):
            return v
    return None


def piece(I, o):
    """a byte of the file a text collects: (loop position, distance from it)"""
    b = carried(I, o)
    p = the_phi(b.args[1]) if b.op == "sel" and b.args[0] is RAW else None
    k = sub(b.args[1], p) if p is not None else None
    return (p, k) if k is not None and is_int(k) else (None, None)


class Text(Family):
    """a text or a byte sequence put together one by one"""

    def edge(self, p, t, st, work):
        b, items = t, []
        while b.op == "sapp":
            items.append(b.args[1])
            b = b.args[0]
        self.pushes += [(x, st) for x in items]
        if items and b.op != "phi":
            return self.inits.append((b, st))
        if items:
            return work.append(b)
        Family.edge(self, p, t, st, work)


def field_text(ck, nm, I, st, v, empty, ends, w):
    """a text holds every byte from where it begins up to the first `ends`: (first position, position after the end)"""
    if v.op != "phi":
        ck.fail(nm, f"{nm} becomes {show(v)[:200]}", w)
        return None
    fam = Text(I, v)
    ck.ob(nm + "/from", all(empty(x) for x in fam.init_terms()), f"{nm} starts as {[show(x)[:80] for x in fam.init_terms()]}", w)
    bs = {unchar(x) for x, _ in fam.pushes}
    o = bs.pop() if len(bs) == 1 else None
    p, k = piece(I, o) if o is not None else (None, None)
    if not ck.ob(nm + "/bytes", p is not None, f"{nm} collects {[show(x)[:80] for x, _ in fam.pushes]}", w):
        return None
    ck.ob(nm + "/inside", all(is_char(I, s, o, ends) is False for _, s in fam.pushes), f"{nm} takes in a byte that may be its end", w)
    ck.ob(nm + "/gaps", not [1 for d, _, b in fam.steps if b is v and d is C(0)], f"{nm} passes over a byte", w)
    ck.ob(nm + "/end", is_char(I, st, o, ends) is True, f"{nm} ends although the byte is not known to be {ends!r}", w)
    own = {t for t in I.phi_in.get(p, {}) if the_phi(t) is p}
    ck.ob(nm + "/step", own == {add(p, C(1))}, f"{nm} moves on to {[show(t)[:60] for t in own]}", w)
    first = {add(t, k) for t in I.phi_in.get(p, {}) if t not in own}
    return first, add(p, add(k, C(1)))


def numbered_board(ck, k, I, t, numbers, w):
    """the board of mines behind a numbered one"""
    if t.op == "eff" and t.args[0] == numbers:
        b = t.args[2][0]
        return b.args[0] if b.op == "ref" else b
    ps = Pass(ck, k + "/numbers", I, t, w)
    if not ps.ok or not ck.ob(k + "/numbers", len(ps.bases) == 1 and bool(ps.incs), "the numbers are not put on one board of mines", w):
        return None
    b = next(iter(ps.bases))
    s = ps.turns[0][0]
    h, wd = dims_of(I, s)
    mined_pass(ck, k, I, t, h, wd, w, lambda x: x is b)
    return b


def dims_of(I, s):
    """the terms the rows and columns of the board go by on a path through the reader"""
    me = s.mem.get(("P", "self"), SELF)
    return [F("data", "height", of=me)], [F("data", "width", of=me)]


def mines_read(ck, k, I, b, cell, w, early=lambda z: False):
    """-1 goes to the cell each pair of bytes names; returns (states entering the loop, file position variable)"""
    cs = Cells(I, b)
    ck.ob(k + "/mines", bool(cs.writes), "no mine is placed", w)
    pos = None
    for i, j, v, s in cs.writes:
        ck.ob(k + "/mine", v is MINE, f"a mine is written as {show(v)}", w)
        bytes_ = {x for t in (i, j) if t is not None for x in subterms(t) if x.op == "sel" and x.args[0] is RAW}
        ps = {the_phi(x.args[1]) for x in bytes_}
        if not ck.ob(k + "/pair", len(ps) == 1 and None not in ps and j is not None, f"a mine goes to ({show(i)[:80]}, {show(j)[:80] if j is not None else None})", w):
            continue
        pos = ps.pop()
        wi, wj = cell(raw(pos), raw(add(pos, C(1))))
        ck.ob(k + "/cell", i is wi and j is wj, f"a mine goes to row {show(i)[:100]}, column {show(j)[:100]}, not to row {show(wi)}, column {show(wj)}", w)
        own = {t for t in I.phi_in.get(pos, {}) if the_phi(t) is pos}
        ck.ob(k + "/pairs", own == {add(pos, C(2))}, f"moves on to {[show(t) for t in own]}", w)
        # as many as the mine number
        me = s.mem.get(("P", "self"), SELF)
        ns = twins(I, F("data", "mine_num", of=me))
        good = False
        for p in {x for f in s.facts for x in subterms(f) if x.op == "phi" and x.args[0] == pos.args[0]}:
            r = full_axis(I, s, p, ns, early=lambda z: too_short(z) or early(z))
            good = good or not r
        ck.ob(k + "/number", good or counted_down(I, s, pos, ns[0], early), "the pairs read are not as many as the mine number", w)
    back = [s for s in arrivals(I, pos.args[0]) if the_phi(at(s, pos)) is pos] if pos is not None else []
    into = [s for s in arrivals(I, pos.args[0]) if s not in back] if pos is not None else []
    ck.ob(k + "/every", all(at(s, p) is not p for s in back for p in cs.phis if p.args[0] == pos.args[0]), "a pair of bytes is passed over", w)
    return cs, into, pos


def twins(I, v):
    """a loop variable that never changes and the others of its loop that always have its value"""
    out = [v]
    if v.op == "phi":
        for q in I.phi_in:
            if q.args[0] == v.args[0] and q is not v:
                if all(at(s, q) is at(s, v) or at(s, q) is q and at(s, v) is v for s in arrivals(I, v.args[0])):
                    out.append(q)
    return out


def counted_down(I, s, pos, n, early=lambda z: False):
    """a variable goes from n (as it enters the loop) down to 0, where the loop ends"""
    for p in {p for f in s.facts for p in subterms(f) if p.op == "phi" and p.args[0] == pos.args[0] and I.phi_in.get(p)}:
        own = {t for t in I.phi_in[p] if the_phi(t) is p}
        into = [z for z in arrivals(I, p.args[0]) if the_phi(at(z, p)) is not p]
        start = lambda z: at(z, n) if n.op == "phi" and n.args[0] == p.args[0] else n
        if own == {add(p, C(-1))} and into and all(at(z, p) is start(z) for z in into) and I.ev(s, teq(p, C(0))) is False:
            if all(I.ev(z, teq(p, C(0))) is True or I.ev(z, tlt(C(0), p)) is False or too_short(z) or early(z) for z in I.leaves.get(p.args[0], ())):
                return True
    return False


def len_of(I, t):
    """the length of a container that is only written in place"""
    seen, got, work = set(), set(), [t]
    while work:
        t = the_base(work.pop())
        if t in seen:
            continue
        seen.add(t)
        if t.op == "phi" and I.phi_in.get(t):
            work += list(I.phi_in[t])
        else:
            got.add(len(t.args) if t.op == "veclit" else t.args[1].args[0] if t.op == "from_elem" and is_int(t.args[1]) else None)
    return got.pop() if len(got) == 1 else None


def the_base(t):
    while t.op == "store":
        t = t.args[0]
    return t


def byte_at(I, B, k, depth=0):
    """element k of a small buffer that is filled from consecutive bytes of the file in a loop or one by one: the byte of the file"""
    if depth > 12:
        return None
    if B.op == "store" and is_int(B.args[1]):
        return B.args[2] if B.args[1].args[0] == k else byte_at(I, B.args[0], k, depth + 1)
    if B.op == "veclit":
        return B.args[k] if k < len(B.args) else None
    if B.op == "phi":
        ins = I.phi_in.get(B, {})
        upd = [t for t in ins if t.op == "store" and t.args[0] is B and not is_int(t.args[1])]
        rest = [t for t in ins if t not in upd and t is not B]
        if len(upd) == 1 and upd[0].args[2].op == "sel" and upd[0].args[2].args[0] is RAW:
            i, pos = upd[0].args[1], upd[0].args[2].args[1]
            q = the_phi(pos)
            if i.op == "phi" and q is not None and i.args[0] == q.args[0] == B.args[0]:
                lo = {t for t in I.phi_in[i] if the_phi(t) is not i}
                p0 = {t for t in I.phi_in[q] if the_phi(t) is not q}
                ups = {u for s in ins[upd[0]] for u in bounds_on(s, i)[0]}
                ups = {u for u in ups if all(too_short(z) or I.ev(z, tlt(i, u)) is False for z in I.leaves.get(B.args[0], ()))}
                his = {C(len_of(I, u.args[0]) or 0) if u.op == "len" else u for u in ups}
                if {t for t in I.phi_in[i] if the_phi(t) is i} == {add(i, C(1))} and {t for t in I.phi_in[q] if the_phi(t) is q} == {add(q, C(1))} and len(lo) == 1 and len(p0) == 1:
                    a = next(iter(lo))
                    if is_int(a) and k < a.args[0]:
                        got = {byte_at(I, t, k, depth + 1) for t in rest}
                        return got.pop() if len(got) == 1 else None
                    if is_int(a) and any(is_int(h) and k < h.args[0] for h in his):
                        return raw(add(add(next(iter(p0)), sub(pos, q)), C(k - a.args[0])))
            return None
        got = {byte_at(I, t, k, depth + 1) for t in rest}
        if len(got) == 1 and len(ins) >= 1:
            return got.pop()
    return select(B, C(k)) if B.op == "phi" else None


def v18(ck):
    ck.rule = ("The AVF reader, analysed over an arbitrary byte string: level table for all byte values; a mine per byte pair at the 1-based row and column, numbered like any board; texts and numbers between their delimiters, one after the other; "
               "every event has button (all 256 codes), time and position of its 8 bytes, and events follow each other without gap up to the one without seconds; every failing exit is justified by a fact about the bytes.")
    p = prog()
    numbers = fn_named(p, "utils::cal_board_numbers").name
    g, I, ex = run("parse_video", None, impl="AvfVideo", opaque=[numbers], split=True)
    ck.use(I, ex)
    w = wh(g)
    oks = [e for e in ex if not is_err(e.val)]
    ck.ob("reads", len(oks) > 0, "never succeeds", w)
    at_ = lambda k_: add(OFF0, C(k_))
    LV = raw(at_(5))
    for e in ex:
        me = e.st.mem.get(("P", "self"), SELF)
        if not is_err(e.val):
            continue
        ck.ob("unreadable", F("data", "can_analyse", of=me) is not TRUE, "a file that was not read is marked fit for analysis", w)
        why = get_field(e.val, "Err.0")
        n = why.args[1] if why.op == "S" else None
        if n == "FileIsTooShort":
            ck.ob("error/short", too_short(e.st), "fails although no position is past the end of the file", w)
        elif n == "FileIsEmpty":
            ck.ob("error/empty", I.ev(e.st, tlt(OFF0, mk("len", RAW))) is False, "called empty although a byte can be read", w)
        elif n == "InvalidLevel":
            ck.ob("error/level", not [c for c in (3, 4, 5, 6) if I.assume(e.st, teq(LV, C(c)), True) is not None], "a known level is refused", w)
        elif n == "InvalidParams":
            ck.ob("error/number", any(f.op == "isv" and f.args[0].op == "parse" and (f.args[1] == "Err") is v for f, v in e.st.facts.items()), "fails although every number could be read", w)
        elif n == "InvalidVideoEvent":
            bad = codes_of(e.st, I)
            ck.ob("error/event", bad is not None and not [c for c in bad if c in AVF_CODES], f"codes {(bad or [])[:4]} are refused", w)
        elif n == "InvalidMinePosition":
            ck.ob("error/mine", avf_off(I, e.st), "a mine on the board is refused", w)
        else:
            ck.fail("error", f"fails with {show(why)}", w)
    for e in oks:
        me = e.st.mem.get(("P", "self"), SELF)
        got = lambda *p_: F("data", *p_, of=me)
        ck.ob("can_analyse", got("can_analyse") is TRUE, "a file that was read is not marked fit for analysis", w)
        ck.ob("is_offical", got("is_offical") is TRUE and got("is_fair") is TRUE, "a file of the official program is not marked so", w)
        sw = got("software")
        ck.ob("software", text_of(sw) == "Arbiter", f"the program is {show(sw)[:100]}", w)
        b = numbered_board(ck, "board", I, got("board"), numbers, w)
        if b is None:
            continue
        r = mines_read(ck, "board", I, b, lambda c, d: (add(c, C(-1)), add(d, C(-1))), w, lambda z: avf_off(I, z))
        if r[2] is None:
            continue
        cs, into, pos = r
        avf_level(ck, I, cs, into, pos, LV, at_, w)
        avf_texts(ck, I, e, got, w)
        avf_events(ck, I, e, got, w)
    ck.floor("successful exits", len(oks), 1)


AVF_CODES = {1: "mv", 3: "lc", 5: "lr", 9: "rc", 17: "rr", 33: "mc", 65: "mr", 145: "rr", 193: "mr", 11: "sc", 21: "lr"}
STD = {3: (8, 8, 10), 4: (16, 16, 40), 5: (16, 30, 99)}


def one_of(I, st, b, chars):
    """is the byte b known to be one of the characters / known to be none of them"""
    vs = [is_char(I, st, unchar(b), c) for c in chars]
    if True in vs:
        return True
    if all(v is False for v in vs):
        return False
    if unchar(b).op == "c":
        return False
    return small(st, unchar(b), {ord(c) for c in chars})


def small(st, b, ok):
    """the byte is known to be in the set / known to be outside although it is not known which it is"""
    fs = [(f, v) for f, v in st.facts.items() if any(x is b for x in subterms(f))]
    left = set()
    for c in range(256):
        for f, v in fs:
            try:
                if cheval(f, b, c) is not v:
                    break
            except NoValue:
                pass
        else:
            left.add(c)
    return True if left and left <= ok else False if not left & ok else None


def cheval(t, b, c):
    """a fact about one byte or character, for one value of it"""
    if t.op == "not":
        return not cheval(t.args[0], b, c)
    if t.op in ("and", "or"):
        x, y = (cheval(z, b, c) for z in t.args)
        return (x and y) if t.op == "and" else (x or y)
    if t.op not in ("eq", "lt"):
        raise NoValue(show(t))
    vs = [c if unchar(x) is b else ord(x.args[0]) if x.op == "c" and isinstance(x.args[0], str) and len(x.args[0]) == 1 else x.args[0] if is_int(x) else None for x in t.args]
    if None in vs:
        raise NoValue(show(t))
    return vs[0] == vs[1] if t.op == "eq" else vs[0] < vs[1]


class Window:
    """a few variables of a loop that hold the last bytes read: each takes over the next one's value, the last one takes a new byte"""

    def __init__(self, I, cells, head, pos, fresh=False):
        self.I, self.cells, self.head, self.pos = I, cells, head, pos
        self.fresh = fresh       # the byte just read counts as well, and the variables are as they were before it
        self.back = [s for s in arrivals(I, head) if the_phi(at(s, pos)) is pos]
        self.leaves = [s for s in I.leaves.get(head, ()) if not too_short(s)]

    def now(self, s):
        """the contents on a path"""
        if self.fresh:
            return self.cells + [raw(self.pos)] if at(s, self.pos) is add(self.pos, C(1)) else [None] * (len(self.cells) + 1)
        return [cell_at(s, c) for c in self.cells]

    def outcome(self, s, conj):
        """every test holds (True), one fails (False), or unknown"""
        vs = [conj(s, k, v) for k, v in enumerate(self.now(s))]
        return False if False in vs else True if all(v is True for v in vs) else None

    def refuted(self, s, conj):
        if not self.fresh and self.leaves and all(self.now(z) == self.cells for z in self.leaves):
            # tested before the next byte is taken
            return False in [conj(s, k, c) for k, c in enumerate(self.cells)]
        return self.outcome(s, conj) is False


def cell_at(s, c):
    if c.op == "phi":
        return at(s, c)
    v = at(s, c.args[0])
    return select(v, c.args[1]) if v is not None else None


def windows(I):
    out = []
    for head in {p.args[0] for p in I.phi_in}:
        cells = []
        for p in I.phi_in:
            if p.args[0] != head:
                continue
            ups = [t for t in I.phi_in[p] if t is not p]
            ks = {t.args[1].args[0] for u in ups for t in subterms(u) if t.op == "store" and is_int(t.args[1])}
            cells += [select(p, C(k)) for k in sorted(ks)] if ks else [p]
        back = [s for s in arrivals(I, head) if any(at(s, p) is not None and at(s, p) is not p and the_phi(at(s, p)) is p for p in I.phi_in if p.args[0] == head)]
        take = {}
        for c in cells:
            vs = {unchar(cell_at(s, c)) for s in back if cell_at(s, c) is not None}
            if len(vs) == 1:
                take[c] = vs.pop()
        for c, v in take.items():
            if v.op == "sel" and v.args[0] is RAW and the_phi(v.args[1]) is not None and the_phi(v.args[1]).args[0] == head:
                row = [c]
                while True:
                    prev = [d for d in take if take[d] is unchar(row[0]) and d is not row[0]]
                    if len(prev) != 1 or prev[0] in row:
                        break
                    row.insert(0, prev[0])
                out.append(Window(I, row, head, the_phi(v.args[1])))
                out.append(Window(I, row, head, the_phi(v.args[1]), True))
    return out


def mark(ck, nm, I, n, test, first, what, w):
    """a place in the file is the one right behind the first bytes that match"""
    conj = lambda s, k, v: test(s, k, v) if v is not None else None
    for x in windows(I):
        if len(x.cells) + x.fresh != n:
            continue
        outs = [x.outcome(s, conj) for s in x.leaves]
        if not outs or not all(v is True for v in outs):
            continue
        ck.ob(nm + "/mark", {at(s, x.pos) for s in x.leaves} == first, f"{nm} begins at {[show(t)[:60] for t in first]}, not right behind {what}", w)
        own = {t for t in I.phi_in[x.pos] if the_phi(t) is x.pos}
        ck.ob(nm + "/mark-step", own == {add(x.pos, C(1))}, f"looking for {what} moves on to {[show(t) for t in own]}", w)
        ck.ob(nm + "/mark-first", all(x.refuted(s, conj) for s in x.back), f"{what} may be passed over", w)
        return ck.ob(nm + "/mark-found", True, "", w)
    return ck.ob(nm + "/mark-found", False, f"nothing looks for {what} where {nm} begins", w)


def text_of(t):
    """a constant text, however it is held"""
    while t.op in ("bytes", "to_vec", "cast", "ref", "*"):
        t = t.args[-1] if t.op == "cast" else t.args[0]
    if t.op == "c":
        return t.args[0]
    if t.op == "veclit" and all(x.op == "c" for x in t.args):
        return "".join(chr(x.args[0]) if isinstance(x.args[0], int) else x.args[0] for x in t.args)
    return None


def codes_of(st, I):
    """the values the byte an event's kind depends on can have on a path: the one most is known about"""
    best = None
    cand = {x for f in st.facts if f.op in ("eq", "lt") for x in subterms(f) if x.op in ("sel", "phi")}
    for x in cand:
        no = [c for c in AVF_CODES if I.ev(st, teq(x, C(c))) is False]
        if best is None or len(no) > len(best[1]):
            best = (x, no)
    if best is None or not best[1]:
        return None
    return [c for c in range(256) if I.assume(st, teq(best[0], C(c)), True) is not None]


def avf_level(ck, I, cs, into, pos, LV, at_, w):
    seen = set()
    for s in into:
        me = s.mem.get(("P", "self"), SELF)
        h, wd, m, lv = (F("data", x, of=me) for x in ("height", "width", "mine_num", "level"))
        board = F("data", "board", of=me)
        ck.ob("level/kept", lv is LV, f"the level becomes {show(lv)[:100]}", w)
        ck.ob("board/size", board is mk("from_elem", mk("from_elem", C(0), wd), h), f"the board starts as {show(board)[:150]}", w)
        ns = [c for c in range(256) if I.assume(s, teq(LV, C(c)), True) is not None]
        p0 = at(s, pos)
        if ns == [6]:
            exp = (add(raw(at_(7)), C(1)), add(raw(at_(6)), C(1)), be(at_(8), 2), at_(10))
        elif len(ns) == 1 and ns[0] in STD:
            exp = (*(C(x) for x in STD[ns[0]]), at_(6))
        else:
            ck.fail("level", f"levels {ns[:4]} are read alike", w)
            continue
        seen |= set(ns)
        ck.ob("level/size", (h, wd, m) == exp[:3], f"level {ns[0]} is read as {show(h)} by {show(wd)} with {show(m)} mines", w)
        ck.ob("level/pos", p0 is exp[3], f"the mines are read from {show(p0)} on level {ns[0]}", w)
    ck.ob("level/all", seen == {3, 4, 5, 6}, f"levels read: {sorted(seen)}", w)


def avf_texts(ck, I, e, got, w):
    isinit = lambda *n: lambda x: x is F("data", *n) or x.op == "veclit" and not x.args or x.op == "emptyvec"
    a = field_text(ck, "start_time", I, e.st, got("start_time"), isinit("start_time"), "|", w)
    b = field_text(ck, "end_time", I, e.st, got("end_time"), isinit("end_time"), "|", w)
    if a and b:
        ck.ob("end_time/after", b[0] == {a[1]}, f"the end time is read from {[show(x) for x in b[0]]}, the start time ends at {show(a[1])}", w)
    if a:
        mark(ck, "start_time", I, 3, lambda s, k, v: one_of(I, s, v, ("[", "0123", "|")[k]), a[0], "'[', a digit up to 3, '|'", w)
    blank = lambda x: x.op == "c" and x.args[0] == ""
    v = got("static_params", "bbbv")
    src = parsed(v, "usize")
    c = d = None
    if ck.ob("bbbv", src is not None, f"the 3BV becomes {show(v)[:150]}", w):
        c = field_text(ck, "bbbv", I, e.st, src, blank, "T", w)
    if c:
        mark(ck, "bbbv", I, 2, lambda s, k, v: one_of(I, s, v, "|B"[k]), c[0], "'|B'", w)
    v = got("game_dynamic_params", "rtime")
    src = None
    if v.op == "fsub" and v.args[1] is C(1.0):
        src = parsed(v.args[0], "f64")
        if src is not None and src.op == "s.replace" or src is not None and src.op.endswith("replace"):
            a_ = src.args
            if a_[1].op == "c" and a_[1].args[0] == "," and a_[2].op == "c" and a_[2].args[0] == ".":
                src = a_[0]
    if ck.ob("rtime", src is not None, f"the time becomes {show(v)[:150]}", w):
        d = field_text(ck, "rtime", I, e.st, src, blank, "]", w)
    if c and d:
        ck.ob("rtime/after", d[0] == {c[1]}, f"the time is read from {[show(x) for x in d[0]]}, the 3BV ends at {show(c[1])}", w)
    ms = got("game_dynamic_params", "rtime_ms")
    ck.ob("rtime_ms", ms is mk("f2i", "u32", mk("f.round", fmul(C(1000.0), v))), f"rtime_ms becomes {show(ms)[:150]}", w)
    f = field_text(ck, "player", I, e.st, got("player_designator"), isinit("player_designator"), "\r", w)
    if f and len(f[0]) == 1:
        q = next(iter(f[0]))
        p = [x for x in I.phi_in if q in I.phi_in[x] and the_phi(q) is not x]
        heads = {x.args[0] for x in p}
        sts = [s for h in heads for s in arrivals(I, h) if any(at(s, x) is q for x in p)]
        ck.ob("player/mark", skips(I, sts, q, "Skin:\r"), "the player's name is not what comes after 'S', 'k', 'i', 'n', ':' and the end of the line", w)


def skips(I, sts, q, text, depth=0):
    """the position q is reached by passing, one character of the text after the other, everything up to its next place"""
    if not text:
        return True
    if not sts or depth > 12:
        return False
    p = the_phi(q)
    if p is None:
        return False
    back = [s for s in arrivals(I, p.args[0]) if at(s, p) is not None and the_phi(at(s, p)) is p]
    into = [s for s in arrivals(I, p.args[0]) if s not in back and at(s, p) is not None]
    b = raw(sub(q, C(1)))
    if q is add(p, C(1)) and all(is_char(I, s, b, text[-1]) is True for s in sts):
        if not all(at(s, p) is add(p, C(1)) and is_char(I, s, b, text[-1]) is False for s in back):
            return False
        nq = {at(s, p) for s in into}
        return len(text) == 1 or len(nq) == 1 and skips(I, into, nq.pop(), text[:-1], depth + 1)
    if q is p:
        # one loop over the characters
        turn = [s for s in arrivals(I, p.args[0]) if any(x.args[0] == p.args[0] and at(s, x) is not None and at(s, x) is not x and the_phi(at(s, x)) is x for x in I.phi_in)]
        for s in turn:
            n = at(s, p)
            r = the_phi(n) if n is not None else None
            if r is None or n is not add(r, C(1)):
                return False
            xs = {x for f, v in s.facts.items() if v and f.op == "eq" and any(unchar(y) is raw(r) for y in f.args) for x in f.args if x.op == "sel" and x.args[0].op == "veclit"}
            if len(xs) != 1:
                return False
            x = xs.pop()
            i = x.args[1]
            if text_of(x.args[0]) != text or full_axis(I, s, i, [C(len(text))], early=too_short):
                return False
            for t in I.phi_in.get(r, {}):
                if the_phi(t) is r and (t is not n or not all(I.ev(z, f_) is False for z in I.phi_in[r][t] for f_ in [teq(mk("cast", "char", raw(r)), x)])):
                    return False
            if {t for t in I.phi_in[r] if the_phi(t) is not r} != {p}:
                return False
        return bool(turn)
    return False


def parsed(v, ty):
    if v.op == "." and v.args[1] == "Ok.0" and v.args[0].op == "parse" and v.args[0].args[0] == ty:
        return v.args[0].args[1]
    return None


def flip(v):
    return None if v is None else not v


def first_one(I, t):
    x = byte_at(I, t, 0)
    return not (x is not None and x.op == "sel" and x.args[0] is RAW)


def avf_events(ck, I, e, got, w):
    v = got("video_action_state_recorder")
    if v.op != "phi":
        return ck.fail("events", f"the records become {show(v)[:200]}", w)
    fam = Family(I, v)
    ck.ob("events/kept", not fam.forgets(), fam.forgets(), w)
    ck.ob("events/from", fam.init_terms() == {F("data", "video_action_state_recorder")}, f"the records start as {[show(x)[:80] for x in fam.init_terms()]}", w)
    seen = {}
    buf = None
    for x, s in fam.pushes:
        xx, yy, tt = get_field(x, "x"), get_field(x, "y"), get_field(x, "time")
        Bs = {y.args[0] for t in (xx, yy, tt) for y in subterms(t) if y.op == "sel" and y.args[0].op == "phi"}
        if not ck.ob("events/record", len(Bs) == 1, f"an event is made from {len(Bs)} buffers: x is {show(xx)[:100]}", w):
            continue
        B = buf = Bs.pop()
        by = lambda k_: select(B, C(k_))
        ck.ob("events/x", xx is add(mul(C(256), by(1)), by(3)), f"x is {show(xx)}", w)
        ck.ob("events/y", yy is add(mul(C(256), by(5)), by(7)), f"y is {show(yy)}", w)
        exp = mk("fadd", *sorted((mk("fsub", i2f(add(mul(C(256), by(6)), by(2))), C(1.0)), fdiv(i2f(by(4)), C(100.0))), key=lambda t: t.id))
        ck.ob("events/time", tt is exp, f"time is {show(tt)}, not {show(exp)}", w)
        m = get_field(x, "mouse")
        possible = [c for c in range(256) if I.assume(s, teq(by(0), C(c)), True) is not None]
        ms = [AVF_CODES.get(c) for c in possible]
        ck.ob("events/code", m.op == "c" and possible and all(y == m.args[0] for y in ms), f"codes {possible[:4]} read as {show(m)}", w)
        for c in possible:
            seen[c] = 1
    ck.ob("events/all", set(seen) == set(AVF_CODES), f"codes read: {sorted(seen)}", w)
    if buf is None:
        return
    # the record buffers: eight bytes in a row, each record behind the one before
    upd = {t for t in I.phi_in.get(buf, {})}
    for t in upd:
        if first_one(I, t):
            x = byte_at(I, t, 3)
            if x is not None and x.op == "sel":
                mark(ck, "events", I, 3, lambda s, k, v: (None if v is None else True if k == 0 else I.ev(s, teq(v, C(1))) if k == 2 else flip(I.ev(s, tlt(C(1), v)))), {x.args[1]}, "three bytes, the second up to 1 and the third 1", w)
        got8 = [byte_at(I, t, k_) for k_ in range(8)]
        pos = [x.args[1] if x is not None and x.op == "sel" and x.args[0] is RAW else None for x in got8]
        first = first_one(I, t)
        ks = range(3, 8) if first else range(8)
        ok_ = all(pos[k_] is not None and pos[k_] is add(pos[ks[0]], C(k_ - ks[0])) for k_ in ks)
        ck.ob("events/bytes", ok_, f"an event is made from {[show(x)[:40] if x is not None else None for x in got8]}", w)
    last = {y.args[0] for f in e.st.facts for y in subterms(f) if y.op == "sel" and is_int(y.args[1]) and y.args[0].op == "phi" and (y.args[0] in upd or y.args[0] is buf)}
    good = any(I.ev(e.st, teq(select(b, C(2)), C(0))) is True and I.ev(e.st, teq(select(b, C(6)), C(0))) is True for b in last)
    ck.ob("events/end", good, "the events do not end at the record without seconds", w)


# ---------------------------------------------------------------- RMV

class Trail:
    """where a reader stands, put back to the bytes of the file: loops over a counted number of bytes are replaced by what they add up to"""

    def __init__(self, I, early=lambda z: False):
        self.I, self.memo, self.early = I, {}, early

    def into(self, head):
        ps = [p for p in self.I.phi_in if p.args[0] == head]
        out = []
        for s in arrivals(self.I, head):
            if not any(at(s, p) is not None and (at(s, p) is not p and the_phi(at(s, p)) is p) for p in ps):
                out.append(s)
        return out

    def counter(self, head):
        """(variable counting the turns of a loop from a constant, the bound it ends at), or None"""
        if (head, self.early) not in self.memo:
            self.memo[head, self.early] = self._counter(head)
        return self.memo[head, self.early]

    def _counter(self, head):
        for c in [p for p in self.I.phi_in if p.args[0] == head]:
            own = {t for t in self.I.phi_in[c] if the_phi(t) is c}
            if own != {add(c, C(1))}:
                continue
            back = [s for s in arrivals(self.I, head) if at(s, c) is add(c, C(1))]
            ups = None
            for s in back:
                u = set(bounds_on(s, c)[0])
                ups = u if ups is None else ups & u
            for u in sorted(ups or (), key=lambda t: t.id):
                if all(too_short(z) or self.early(z) or self.I.ev(z, tlt(c, u)) is False for z in self.I.leaves.get(head, ())):
                    return c, u
            # counting up to a number of which only that it is passed is known
        for c in [p for p in self.I.phi_in if p.args[0] == head]:
            own = {t for t in self.I.phi_in[c] if the_phi(t) is c}
            if own == {add(c, C(-1))} and all(too_short(z) or self.early(z) or self.I.ev(z, teq(c, C(0))) is True or self.I.ev(z, tlt(C(0), c)) is False for z in self.I.leaves.get(head, ())):
                return c, None
        return None

    def turns(self, head, s):
        """how many turns a loop entered with state s makes until its end"""
        ct = self.counter(head)
        if ct is None:
            return None
        c, u = ct
        a = at(s, c)
        if u is None:
            return a
        b = at(s, u) if u.op == "phi" and u.args[0] == head else u
        return None if a is None or b is None else sub(b, a)

    def resolve(self, t, env=None, depth=0):
        """[(term, {loop: state it was entered with})]"""
        env = env or {}
        if depth > 40:
            return [(t, env)]
        if t.op == "phi":
            head = t.args[0]
            own = {u for u in self.I.phi_in.get(t, {}) if u is not t and the_phi(u) is t}
            ks = {sub(u, t) for u in own}
            if len(ks) > 1 or any(not is_int(k) for k in ks) or any(u is not t and mentions(u, lambda y: y is t) and the_phi(u) is not t for u in self.I.phi_in.get(t, {})):
                return [(t, env)]
            out = []
            for s in ([env[head]] if head in env else self.into(head)):
                e2 = dict(env, **{}) if head in env else {**env, head: s}
                v = at(s, t)
                if v is None:
                    return [(t, env)]
                if ks:
                    n = self.turns(head, s)
                    if n is None:
                        return [(t, env)]
                    v = add(v, mul(next(iter(ks)), n))
                out += self.resolve(v, e2, depth + 1)
            return out or [(t, env)]
        if not any(x.op == "phi" for x in subterms(t)):
            return [(t, env)]
        if t.op == "lin":
            c, d = lin_parts(t)
            outs = [(C(c), env)]
            for x, k in d.items():
                outs = [(add(a, mul(C(k), b)), e3) for a, e2 in outs for b, e3 in self.resolve(x, e2, depth + 1)]
            return outs
        if t.op == "sel":
            return [(select(b, i), e3) for b, e2 in self.resolve(t.args[0], env, depth + 1) for i, e3 in self.resolve(t.args[1], e2, depth + 1)]
        if t.op == "mod":
            return [(tmod(b, t.args[1]), e2) for b, e2 in self.resolve(t.args[0], env, depth + 1)]
        return [(t, env)]

    def known(self, c, env, *more):
        sts = [*more, *env.values()]
        for s in sts:
            v = self.I.ev(s, c)
            if v is not None:
                return v
        # what the paths know of bytes whose position is put back first
        for s in sts:
            for f, v in list(s.facts.items()):
                while f.op == "not":
                    f, v = f.args[0], not v
                if f.op not in ("lt", "eq") or not any(x.op == "phi" for x in subterms(f)):
                    continue
                key = (f, tuple((h, id(z)) for h, z in sorted(env.items(), key=lambda q: str(q[0]))))
                if key not in self.memo:
                    a, b = ({t for t, _ in self.resolve(x, env)} for x in f.args)
                    self.memo[key] = (a.pop(), b.pop()) if len(a) == 1 and len(b) == 1 else None
                ab = self.memo[key]
                if ab is None or ab == f.args:
                    continue
                s2 = self.I.assume(State(), (tlt if f.op == "lt" else teq)(*ab), v)
                r = self.I.ev(s2, c) if s2 is not None else None
                if r is not None:
                    return r
        return None


def tmod(a, m):
    return a if a.op == "sel" and a.args[0] is RAW and is_int(m) and m.args[0] >= 256 else mk("mod", a, m)


RMV_CODES = {1: "mv", 2: "lc", 3: "lr", 4: "rc", 5: "rr", 6: "mc", 7: "mr"}


def byte_set(st, b):
    """the values a byte can have on a path"""
    fs = [(f, v) for f, v in st.facts.items() if any(x is b for x in subterms(f))]
    left = set()
    for c in range(256):
        for f, v in fs:
            try:
                if cheval(f, b, c) is not v:
                    break
            except NoValue:
                pass
        else:
            left.add(c)
    return left


def v19(ck):
    ck.rule = ("The RMV reader, analysed over an arbitrary byte string: every position it reads from is put back to the bytes before it (length-prefixed texts, counted lists) and compared with the layout; mine, pre-flag and event decoding for all byte values; "
               "the first button of the game is added once; every failing exit is justified by a fact about the bytes.")
    p = prog()
    numbers = fn_named(p, "utils::cal_board_numbers").name
    g, I, ex = run("parse_video", None, impl="RmvVideo", opaque=[numbers], split=True)
    ck.use(I, ex)
    w = wh(g)
    off = lambda z: mine_off(I, z)
    T = Trail(I, off)
    T.signs = compared(I, T)
    T.early = lambda z: off(z) or any(x[3](z) for x in T.signs)
    oks = [e for e in ex if not is_err(e.val)]
    ck.ob("reads", len(oks) > 0, "never succeeds", w)
    o = lambda k: add(OFF0, C(k))
    R, V, P, Q = be(o(10), 2), be(o(12), 2), be(o(18), 2), be(o(20), 2)
    main = set()
    for e in oks:
        v = F("data", "video_action_state_recorder", of=e.st.mem.get(("P", "self"), SELF))
        if v.op == "phi":
            main.add(v)
    if not ck.ob("events", len(main) == 1, "the records are not put together in one loop", w):
        return
    rec = main.pop()
    head = rec.args[0]
    back = [s for s in arrivals(I, head) if s not in T.into(head)]
    # the position in the file at the head of the event loop
    ps = [q for q in I.phi_in if q.args[0] == head and q in {the_phi(x.args[1]) for s in back for f in s.facts for x in subterms(f) if x.op == "sel" and x.args[0] is RAW and x.args[1] is the_phi(x.args[1])}]
    if not ck.ob("events/pos", len(ps) == 1, f"{len(ps)} variables of the event loop stand for a position in the file", w):
        return
    pos = ps[0]
    code = raw(pos)
    for e in ex:
        if is_err(e.val):
            rmv_error(ck, I, T, e, code, w)
    starts = []
    for e in oks:
        me = e.st.mem.get(("P", "self"), SELF)
        got = lambda *q: F("data", *q, of=me)
        ck.ob("can_analyse", got("can_analyse") is TRUE, "a file that was read is not marked fit for analysis", w)
        ck.ob("is_offical", got("is_offical") is TRUE and got("is_fair") is TRUE, "a file of the official program is not marked so", w)
        ck.ob("software", text_of(got("software")) == "Viennasweeper", f"the program is {show(got('software'))[:100]}", w)
        ck.ob("rtime", got("game_dynamic_params", "rtime") is get_field(mk("sel", rec, add(mk("len", rec), C(-1))), "time"), f"the time becomes {show(got('game_dynamic_params', 'rtime'))[:200]}", w)
        ck.ob("signature", signed(I, T, e.st, o) is True and T.known(teq(be(o(4), 2), C(1)), {}, e.st) is True, "a file without the signature is read", w)
        ck.ob("end", byte_set(e.st, code) <= {15, 16, 17}, f"the events end at codes {sorted(byte_set(e.st, code))[:8]}", w)
        b = numbered_board(ck, "board", I, got("board"), numbers, w)
        r = mines_read(ck, "board", I, b, lambda c, d: (d, c), w, off) if b is not None else None
        if r is None or r[2] is None:
            continue
        cs, into, mpos = r
        kept = rmv_layout(ck, I, T, into, mpos, (R, V, P, Q, o), w)
        rmv_names(ck, I, T, e, got, (R, V, o), w)
        rmv_result(ck, I, T, e, got, (R, o), w)
        rmv_mines_inside(ck, I, cs, w)
        rmv_tail(ck, I, T, head, pos, rec, got, (R, V, P, Q, o), w)
    rmv_events(ck, I, T, back, pos, rec, w)
    ck.floor("successful exits", len(oks), 1)


def mine_off(I, st, dims=("width", "height"), base=0):
    """the path knows of a pair of bytes whose first or second is past the dimension it stands for"""
    me = st.mem.get(("P", "self"), SELF)
    for b in {x for f in st.facts for x in subterms(f) if x.op == "sel" and x.args[0] is RAW and the_phi(x.args[1]) is not None}:
        k = sub(b.args[1], the_phi(b.args[1]))
        for d in (dims[:1] if k is C(0) else dims[1:] if k is C(1) else ()):
            if any(I.ev(st, tlt(add(b, C(-base)), x)) is False or I.ev(st, tlt(sub(x, C(1 - base)), b)) is True or base and I.ev(st, tor(tlt(b, C(base)), tnot(tlt(add(b, C(-base)), x)))) is True for x in twins(I, F("data", d, of=me))) or base and I.ev(st, tlt(b, C(base))) is True:
                return True
    return False


def avf_off(I, st):
    return mine_off(I, st, ("height", "width"), 1)


def compared(I, T):
    """loops that compare the bytes of the file one by one with a constant text and end when all agree: [(first position, text, loop)]"""
    out = []
    for head in {p.args[0] for p in I.phi_in}:
        turn = [s for s in arrivals(I, head) if s not in T.into(head)]
        hits = set()
        for s in turn:
            hits.add(frozenset((x, unchar(y)) for f, v in s.facts.items() if v and f.op == "eq" for x, y in (f.args, f.args[::-1]) if x.op == "sel" and x.args[0].op == "veclit" and unchar(y).op == "sel" and unchar(y).args[0] is RAW))
        if len(hits) != 1 or len(next(iter(hits))) != 1:
            continue
        x, y = next(iter(next(iter(hits))))
        i, q = x.args[1], the_phi(y.args[1])
        text = text_of(x.args[0])
        if text is None or i.op != "phi" or i.args[0] != head or y.args[1] is not q or q.args[0] != head:
            continue
        if any(at(s, q) is not add(q, C(1)) for s in turn):
            continue
        miss = lambda z: I.ev(z, teq(y, x)) is False or I.ev(z, teq(mk("cast", "char", y), x)) is False
        if full_axis(I, turn[0], i, [C(len(text))], early=lambda z: too_short(z) or miss(z)):
            continue
        for s in T.into(head):
            out.append((at(s, q), text, head, miss))
    return out


def signed(I, T, st, o, want="*rmv"):
    """every byte of the signature is known to agree (True), one is known not to (False)"""
    vs = [one_of(I, st, raw(o(k)), c) for k, c in enumerate(want)]
    if False in vs:
        return False
    for a, text, head, miss in T.signs:
        if miss(st):
            return False
        for k in range(len(want)):
            if a is o(k) and want[k:k + len(text)] == text and (st.mem and past(I, head, st)):
                for j in range(len(text)):
                    vs[k + j] = True
    return True if all(v is True for v in vs) else None


def past(I, head, st):
    """the path has left the loop at its end: it knows the bound of the counter is reached"""
    for c in [p for p in I.phi_in if p.args[0] == head]:
        for f, v in st.facts.items():
            if f.op == "lt" and not v and f.args[0] is c and is_int(f.args[1]):
                return True
    return False


def rmv_error(ck, I, T, e, code, w):
    me = e.st.mem.get(("P", "self"), SELF)
    o = lambda k: add(OFF0, C(k))
    ck.ob("unreadable", F("data", "can_analyse", of=me) is not TRUE, "a file that was not read is marked fit for analysis", w)
    why = get_field(e.val, "Err.0")
    n = why.args[1] if why.op == "S" else None
    if n == "FileIsTooShort":
        ck.ob("error/short", too_short(e.st), "fails although no position is past the end of the file", w)
    elif n == "FileIsEmpty":
        ck.ob("error/empty", I.ev(e.st, tlt(OFF0, mk("len", RAW))) is False, "called empty although a byte can be read", w)
    elif n == "FileIsNotRmv":
        ok_ = too_short(e.st) or signed(I, T, e.st, o) is False or T.known(teq(be(o(4), 2), C(1)), {}, e.st) is False
        ck.ob("error/signature", ok_, "a file with the signature is refused", w)
    elif n == "InvalidMinePosition":
        ck.ob("error/mine", mine_off(I, e.st), "a mine on the board is refused", w)
    elif n == "InvalidBoardSize":
        ck.ob("error/size", no_size(I, e.st), "a board with cells is refused", w)
    elif n == "InvalidLevel":
        ck.ob("error/level", any(f.op == "lt" and v and f.args[0] is C(255) and f.args[1].op == "lin" or f.op == "lt" and v is False and f.args[1] is C(253) for f, v in e.st.facts.items()), "a level is refused", w)
    elif n in ("InvalidParams", "InvalidVideoEvent"):
        num = any(f.op == "isv" and f.args[0].op == "parse" and (f.args[1] == "Err") is v for f, v in e.st.facts.items())
        cs = byte_set(e.st, code) if any(x is code for f in e.st.facts for x in subterms(f)) else None
        few = any(T.known(tlt(be(o(k), 2), C(n_)), {}, e.st) is True for k, n_ in ((10, 3), (20, 4)))
        none = any(I.ev(e.st, teq(mk("len", x), C(0))) is True for f in e.st.facts for y in subterms(f) if y.op == "len" for x in y.args if x.op == "phi")
        ck.ob("error/code", num or few or none or cs is not None and cs <= {8, *range(28, 256)}, f"codes {sorted(cs or ())[:6]} are refused", w)
    else:
        ck.fail("error", f"fails with {show(why)}", w)


def no_size(I, st):
    """the path knows that the board has no rows or no columns"""
    me = st.mem.get(("P", "self"), SELF)
    return any(I.ev(st, teq(F("data", d, of=me), C(0))) is True or I.ev(st, tlt(F("data", d, of=me), C(1))) is True for d in ("width", "height"))


def strings(T, env, s, R, V, o, n=None):
    """[positions of the length bytes of the texts that are there] for the paths of env, or None when it is not decided how many"""
    n = be(add(o(28), add(R, V)), 2)
    out = []
    at_ = add(o(30), add(R, V))
    for k in range(4):
        v = T.known(tlt(C(k), n), env, *s)
        if v is None:
            return None, None
        if not v:
            break
        out.append(at_)
        at_ = add(at_, add(C(1), raw(at_)))
    return out, at_


def rmv_layout(ck, I, T, into, mpos, L, w):
    R, V, P, Q, o = L
    for s in into:
        me = s.mem.get(("P", "self"), SELF)
        for q, env in T.resolve(at(s, mpos), {mpos.args[0]: s}):
            ss, end = strings(T, env, [s], R, V, o)
            if not ck.ob("names/number", ss is not None, "which names are there is not decided by their number", w):
                continue
            ck.ob("mines/pos", q is add(end, C(8)), f"the mines are read from {show(q)[:200]}", w)
            for nm, exp in (("width", raw(add(end, C(4)))), ("height", raw(add(end, C(5)))), ("mine_num", be(add(end, C(6)), 2))):
                ts = {t for t, _ in T.resolve(F("data", nm, of=me), env)}
                ck.ob("board/" + nm, ts == {exp}, f"{nm} is read from {[show(t)[:150] for t in ts]}", w)
        ck.ob("board/size", F("data", "board", of=me) is mk("from_elem", mk("from_elem", C(0), F("data", "width", of=me)), F("data", "height", of=me)), f"the board starts as {show(F('data', 'board', of=me))[:150]}", w)


def listed(ck, nm, I, T, v, env, w, init=None):
    """the bytes a list is made of: (first position, how many, loops entered), as terms of the file"""
    fam = Text(I, v)
    if len(fam.pushes) < 1:
        ck.fail(nm, f"{nm} becomes {show(v)[:150]}", w)
        return []
    o = {unchar(x) for x, _ in fam.pushes}
    o = o.pop() if len(o) == 1 else None
    p, k = piece(I, o) if o is not None else (None, None)
    if not ck.ob(nm + "/bytes", p is not None and p.args[0] == v.args[0], f"{nm} collects {[show(x)[:80] for x, _ in fam.pushes]}", w):
        return []
    ck.ob(nm + "/from", fam.init_terms() <= {mk("veclit"), mk("emptyvec"), init}, f"{nm} starts as {[show(x)[:80] for x in fam.init_terms()]}", w)
    ck.ob(nm + "/gaps", not [1 for d, _, b in fam.steps if b is v and d is C(0)], f"{nm} passes over a byte", w)
    own = {t for t in I.phi_in.get(p, {}) if the_phi(t) is p}
    ck.ob(nm + "/step", own == {add(p, C(1))}, f"{nm} moves on to {[show(t)[:60] for t in own]}", w)
    out = []
    head = v.args[0]
    for s in ([env[head]] if head in env else T.into(head)):
        n = T.turns(head, s)
        if not ck.ob(nm + "/counted", n is not None, f"{nm} is not of a given length", w):
            continue
        for a, e2 in T.resolve(add(at(s, p), k), {**env, head: s}):
            for m, e3 in T.resolve(n, e2):
                out.append((a, m, e3))
    return out


def rmv_names(ck, I, T, e, got, L, w):
    R, V, o = L
    for nm, k in (("player_designator", 0), ("country", 2)):
        for v, env in T.resolve(got(nm), {}):
            ss, _ = strings(T, env, [], R, V, o)
            if v.op == "phi":
                for a, m, e2 in listed(ck, nm, I, T, v, env, w):
                    ss, _ = strings(T, e2, [], R, V, o)
                    if ss is None:
                        # as many as this path knows of
                        n = be(add(o(28), add(R, V)), 2)
                        q = add(o(30), add(R, V))
                        for _ in range(k):
                            q = add(q, add(C(1), raw(q)))
                        there = T.known(tlt(C(k), n), e2) is True
                    else:
                        there = len(ss) > k
                        q = ss[k] if there else None
                    ck.ob(nm + "/pos", there and a is add(q, C(1)) and m is raw(q), f"{nm} is read from {show(a)[:150]}, {show(m)[:150]} bytes", w)
            else:
                n = be(add(o(28), add(R, V)), 2)
                ck.ob(nm + "/none", v in (mk("veclit"), mk("emptyvec")) and T.known(tlt(C(k), n), env) is False, f"{nm} becomes {show(v)[:100]}", w)


def rmv_result(ck, I, T, e, got, L, w):
    R, o = L
    long = tlt(C(35), R)
    at0 = add(R, o(-3))
    seen = set()
    for v, env in T.resolve(got("static_params", "bbbv"), {}):
        src = parsed(v, "usize")
        if v is C(0):
            ck.ob("bbbv/none", T.known(long, env) is False, "the 3BV is 0 although the result names one", w)
            seen.add(0)
            continue
        if not ck.ob("bbbv", src is not None and src.op == "phi", f"the 3BV becomes {show(v)[:150]}", w):
            continue
        seen.add(1)
        fam = Text(I, src)
        bs = {unchar(x) for x, _ in fam.pushes}
        b = bs.pop() if len(bs) == 1 else None
        p, k = piece(I, b) if b is not None else (None, None)
        if not ck.ob("bbbv/bytes", p is not None and fam.init_terms() <= {C(""), mk("veclit")}, f"the 3BV collects {[show(x)[:80] for x, _ in fam.pushes]}", w):
            continue
        digits = set(range(48, 58))
        ck.ob("bbbv/digits", all(byte_set(s, b) <= digits for _, s in fam.pushes), "a character that is no digit is taken", w)
        ck.ob("bbbv/gaps", all(not byte_set(s, b) & digits for d, s, q in fam.steps if q is src and d is C(0)), "a digit is passed over", w)
        for s in T.into(src.args[0]):
            for a, e2 in T.resolve(add(at(s, p), k), {src.args[0]: s}):
                ck.ob("bbbv/pos", a is at0 and T.turns(src.args[0], s) is C(3) and T.known(long, e2, s) is True, f"the 3BV is read from {show(a)[:100]}, {show(T.turns(src.args[0], s) or C(-1))[:60]} characters", w)
        own = {t for t in I.phi_in.get(p, {}) if the_phi(t) is p}
        ck.ob("bbbv/step", own == {add(p, C(1))}, f"the 3BV moves on to {[show(t)[:60] for t in own]}", w)
    ck.ob("bbbv/ways", seen == {0, 1}, "the 3BV is not read when there is one and 0 otherwise", w)
    seen = set()
    for v, env in T.resolve(got("start_time"), {}):
        if v.op == "phi":
            seen.add(1)
            for a, m, e2 in listed(ck, "start_time", I, T, v, env, w):
                ck.ob("start_time/pos", a is add(at0, C(19)) and m is C(10) and T.known(long, e2) is True, f"the time stamp is read from {show(a)[:100]}, {show(m)[:50]} bytes", w)
        else:
            seen.add(0)
            ck.ob("start_time/none", v is F("data", "start_time") and T.known(long, env) is False, f"the time stamp becomes {show(v)[:100]}", w)
    ck.ob("start_time/ways", seen == {0, 1}, "the time stamp is not read when there is one", w)


def rmv_mines_inside(ck, I, cs, w):
    for i, j, v, s in cs.writes:
        me = s.mem.get(("P", "self"), SELF)
        h, wd = twins(I, F("data", "height", of=me)), twins(I, F("data", "width", of=me))
        ck.ob("mines/inside", any(I.ev(s, tlt(i, x)) is True for x in h) and j is not None and any(I.ev(s, tlt(j, x)) is True for x in wd), "a mine outside the board is not refused", w)


def rmv_tail(ck, I, T, head, pos, rec, got, L, w):
    """pre-flags, flags of the game, and where the events begin"""
    R, V, P, Q, o = L
    some = tlt(C(0), P)
    for s in T.into(head):
        me = s.mem.get(("P", "self"), SELF)
        g = lambda *q: F("data", *q, of=me)
        for q, env in T.resolve(at(s, pos), {head: s}):
            ss, end = strings(T, env, [s], R, V, o)
            if not ck.ob("tail/names", ss is not None, "which names are there is not decided", w):
                continue
            mn = be(add(end, C(6)), 2)
            m2 = add(end, add(C(8), mul(C(2), mn)))
            pre = T.known(some, env, s)
            if not ck.ob("preflags/known", pre is not None, "whether there are flags set before the game is not decided by their size", w):
                continue
            e0 = add(m2, add(C(2), mul(C(2), be(m2, 2)))) if pre else m2
            ck.ob("events/start", q is add(e0, Q), f"the events are read from {show(q)[:300]}", w)
            one = I.ev(s, teq(raw(add(e0, C(1))), C(1)))
            for nm, exp in (("mode", raw(add(e0, C(2)))), ("level", add(raw(add(e0, C(3))), C(3)))):
                ts = {t for t, _ in T.resolve(g(nm), env)}
                ck.ob(nm, ts == {exp}, f"{nm} is {[show(t)[:120] for t in ts]}", w)
            nf = g("nf")
            fs = {f: v for f, v in s.facts.items() if f.op == "eq" and C(1) in f.args}
            yes = None
            for f, v in fs.items():
                x = f.args[0] if f.args[1] is C(1) else f.args[1]
                if x.op == "sel" and {t for t, _ in T.resolve(x, env)} == {raw(add(e0, C(1)))}:
                    yes = v
            val = True if nf is TRUE else False if nf is FALSE else None
            if val is None and nf.op == "eq" and C(1) in nf.args:
                x = nf.args[0] if nf.args[1] is C(1) else nf.args[1]
                ck.ob("nf", {t for t, _ in T.resolve(x, env)} == {raw(add(e0, C(1)))}, f"nf becomes {show(nf)[:120]}", w)
            else:
                ck.ob("nf", val is not None and val is yes, f"nf becomes {show(nf)[:120]}", w)
            r0 = at(s, rec)
            if pre:
                rmv_preflags(ck, I, T, r0, env, m2, w)
            else:
                ck.ob("preflags/none", r0 is F("data", "video_action_state_recorder"), f"the records begin with {show(r0)[:100]}", w)


def rmv_preflags(ck, I, T, r0, env, m2, w):
    if not ck.ob("preflags", r0.op == "phi", f"the records begin with {show(r0)[:100]}", w):
        return
    fam = Family(I, r0)
    ck.ob("preflags/kept", not fam.forgets(), fam.forgets(), w)
    ck.ob("preflags/from", fam.init_terms() == {F("data", "video_action_state_recorder")}, f"the records begin with {[show(x)[:80] for x in fam.init_terms()]}", w)
    ck.ob("preflags/gaps", not [1 for d, _, b in fam.steps if b is r0 and d is C(0)], "a flag is passed over", w)
    head = r0.args[0]
    s0 = env.get(head)
    for x, s in fam.pushes:
        q = {the_phi(y.args[1]) for t in (get_field(x, "x"), get_field(x, "y")) for y in subterms(t) if y.op == "sel" and y.args[0] is RAW}
        q = q.pop() if len(q) == 1 else None
        if not ck.ob("preflags/bytes", q is not None and q.args[0] == head, f"a flag is at {show(get_field(x, 'x'))[:80]}, {show(get_field(x, 'y'))[:80]}", w):
            continue
        ck.ob("preflags/event", get_field(x, "mouse") is C("pf") and get_field(x, "x") is mul(C(16), raw(add(q, C(1)))) and get_field(x, "y") is mul(C(16), raw(q)), f"a flag is the event {show(get_field(x, 'mouse'))} at {show(get_field(x, 'x'))[:80]}, {show(get_field(x, 'y'))[:80]}", w)
        ck.ob("preflags/step", {t for t in I.phi_in[q] if the_phi(t) is q} == {add(q, C(2))}, "moves on by other than two bytes", w)
        for z in ([s0] if s0 is not None else T.into(head)):
            first = {t for t, _ in T.resolve(at(z, q), env)}
            n = T.turns(head, z)
            ns = {t for t, _ in T.resolve(n, env)} if n is not None else set()
            ck.ob("preflags/first", first == {add(m2, C(2))} and ns == {be(m2, 2)}, f"{[show(t)[:100] for t in ns]} flags are read from {[show(t)[:100] for t in first]}", w)


def rmv_events(ck, I, T, back, pos, rec, w):
    code = raw(pos)
    seen = set()
    first_seen = set()
    flags = [q for q in I.phi_in if q.args[0] == rec.args[0] and q is not rec and {u for u in I.phi_in[q] if u is not q} in ({TRUE, FALSE},)]
    for s in back:
        cs = byte_set(s, code)
        step = sub(at(s, pos), pos)
        kind = 5 if cs <= {0} else 9 if cs <= set(range(1, 8)) else 3 if cs <= {*range(9, 15), *range(18, 28)} else None
        ck.ob("events/step", kind is not None and step is C(kind), f"codes {sorted(cs)[:5]} move on by {show(step)[:80]}", w)
        seen |= cs
        t = at(s, rec)
        items = []
        while t.op == "push":
            items.insert(0, t.args[1])
            t = t.args[0]
        ck.ob("events/kept", t is rec, f"the records become {show(t)[:100]}", w)
        if kind != 9:
            ck.ob("events/none", not items and all(at(s, q) is q for q in flags), f"codes {sorted(cs)[:5]} are recorded", w)
            continue
        if not ck.ob("events/some", 1 <= len(items) <= 2, f"{len(items)} records for one event", w):
            continue
        me = s.mem.get(("P", "self"), SELF)
        time = fdiv(i2f(add(add(mul(C(65536), raw(add(pos, C(1)))), mul(C(256), raw(add(pos, C(2))))), raw(add(pos, C(3))))), C(1000.0))
        xv = mk("wsub", be(add(pos, C(5)), 2), C(12))
        yv = mk("wsub", be(add(pos, C(7)), 2), C(56))
        W = wide(I, F("data", "width", of=me), s, xv)
        H = wide(I, F("data", "height", of=me), s, yv)
        inx = [I.ev(s, tlt(xv, u)) for u in W]
        iny = [I.ev(s, tlt(yv, u)) for u in H]
        inside = True if True in inx and True in iny else False if False in inx or False in iny else None
        for k, x in enumerate(items):
            xx, yy, tt, m = (get_field(x, f) for f in ("x", "y", "time", "mouse"))
            ck.ob("events/time", tt is time, f"the time is {show(tt)[:200]}", w)
            if inside is True:
                ck.ob("events/xy", xx is xv and yy is yv, f"the position is {show(xx)[:120]}, {show(yy)[:120]}", w)
            else:
                ck.ob("events/outside", inside is False and xx in W and yy in H, f"a position off the board becomes {show(xx)[:100]}, {show(yy)[:100]}", w)
            last = k == len(items) - 1
            ck.ob("events/button", all(name_for(m, code, c) == (RMV_CODES[c] if last else "lc") for c in cs), f"codes {sorted(cs)[:4]} are recorded as {show(m)}", w)
        two = len(items) == 2
        ok_ = False
        for q in flags:
            ini = {u for u in I.phi_in[q] if all(z in T.into(rec.args[0]) for z in I.phi_in[q][u])}
            now = at(s, q)
            v = I.ev(s, q)
            if len(ini) == 1 and v is not None:
                first = (TRUE if v else FALSE) in ini
                after = TRUE if ini == {FALSE} else FALSE
                if first is two and (now is after or not first and now is q):
                    ok_ = True
        ck.ob("events/first", ok_, "the first press is not added exactly to the first event", w)
        first_seen.add(two)
    ck.ob("events/codes", seen == {*range(0, 8), *range(9, 15), *range(18, 28)}, f"codes read: {sorted(seen)[:40]}", w)
    ck.ob("events/first/ways", first_seen == {True, False}, "the first press is added to all or no events", w)


def name_for(m, b, c):
    """the constant text m is, or the one it picks from a table, when the byte b is c"""
    while m.op in ("*", "ref"):
        m = m.args[0]
    if m.op == "sel" and m.args[0].op == "veclit":
        try:
            k = ceval(m.args[1], {b: c})
        except NoValue:
            return None
        return text_of(m.args[0].args[k]) if 0 <= k < len(m.args[0].args) else None
    return text_of(m)


def wide(I, d, s, v):
    """16 pixels for each column, as the path has it"""
    out = {mul(C(16), x) for x in twins(I, d)} | {mul(C(16), mk("mod", x, C(65536))) for x in twins(I, d)}
    return out
