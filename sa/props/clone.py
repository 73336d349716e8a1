"""Replay files of Clone 0.97 (MVF)."""
from props.foreign import *

BITS_OF = {"rb": (0, 1), "mb": (1, 1), "lb": (2, 1), "y": (3, 9), "x": (12, 9), "ths": (21, 7), "sec": (28, 10)}


def axis(I, p, early=too_short):
    """[lo, hi) a loop variable runs through completely, or None"""
    own = {t for t in I.phi_in.get(p, {}) if the_phi(t) is p}
    lo = {t for t in I.phi_in.get(p, {}) if the_phi(t) is not p}
    if own != {add(p, C(1))} or len(lo) != 1 or not is_num(next(iter(lo))):
        return None
    lo = num(next(iter(lo)))
    back = [s for s in arrivals(I, p.args[0]) if at(s, p) is add(p, C(1))]
    for s in back:
        for u in uppers(s, p):
            if u.op == "min":
                u = [x for x in u.args if is_int(x)][0] if [y for y in u.args if y.op == "len" and y.args[0].op == "charsof" and long_text(y.args[0])] and [x for x in u.args if is_int(x) and x.args[0] <= 8] else u
                if is_num(u):
                    return lo, num(u)
            if u.op == "len" and len_of(I, u.args[0]) is not None:
                if all(early(z) or I.ev(z, tlt(p, u)) is False for z in I.leaves.get(p.args[0], ())):
                    return lo, len_of(I, u.args[0])
            if all(early(z) or I.ev(z, tlt(p, u)) is False for z in I.leaves.get(p.args[0], ())):
                return (lo, num(u)) if is_num(u) else None
    return None


def uppers(s, p):
    out = [f.args[1] for f, v in s.facts.items() if f.op == "lt" and v and f.args[0] is p]
    return out + [u for u in bounds_on(s, p)[0] if u not in out]


def is_num(t):
    return t.op == "c" and (isinstance(t.args[0], int) or isinstance(t.args[0], str) and len(t.args[0]) == 1)


def num(t):
    return t.args[0] if isinstance(t.args[0], int) else ord(t.args[0])


class Filled:
    """a list or array written element by element, each loop running through all its turns: what stands at an index, in terms of what the loops read"""

    def __init__(self, I, B):
        self.I, self.map, self.why = I, {}, None
        seen, work, self.inits = set(), [B], []
        while work:
            b = work.pop()
            if b in seen:
                continue
            seen.add(b)
            if b.op == "store":
                self.put(b.args[1], b.args[2], None)
                work.append(b.args[0])
            elif b.op == "phi" and I.phi_in.get(b):
                for t, sts in I.phi_in[b].items():
                    if t.op == "store" and t.args[0] is b:
                        for s in sts:
                            self.put(t.args[1], t.args[2], s)
                        continue
                    if t is b:
                        # a turn that writes nothing
                        if any(self.turn(b, s) for s in sts):
                            self.why = "an element is passed over"
                        continue
                    work.append(t)
            else:
                self.inits.append(b)
        lits = [b for b in self.inits if b.op == "veclit"]
        if len(lits) == 1 and len(self.inits) == 1:
            for k, x in enumerate(lits[0].args):
                self.map.setdefault(k, []).append(x) if k not in self.map else None

    def turn(self, b, s):
        return any(at(s, p) is not None and at(s, p) is not p and the_phi(at(s, p)) is p for p in self.I.phi_in if p.args[0] == b.args[0])

    def put(self, i, v, s):
        ps = sorted({p for p in subterms(i) if p.op == "phi"}, key=lambda p: p.id)
        if len(ps) > 2:
            self.why = f"writes at {show(i)}"
            return
        rs = []
        for p in ps:
            r = axis(self.I, p)
            if r is None or r[1] - r[0] > 64:
                self.why = f"writes at {show(i)}"
                return
            rs.append(range(*r))
        from itertools import product
        for ks in product(*rs):
            m = dict(zip(ps, (C(k) for k in ks)))
            j = subst(i, m)
            if not is_int(j):
                self.why = f"writes at {show(i)}"
                return
            self.map.setdefault(j.args[0], []).append(fold(subst(v, m)))

    def __getitem__(self, k):
        vs = set(self.map.get(k, ()))
        return vs.pop() if self.why is None and len(vs) == 1 else None


def fold(t):
    """elements of constant lists at constant places"""
    if t.op == "sel" and is_int(t.args[1]):
        b = t.args[0]
        while b.op in ("ref", "*"):
            b = b.args[0]
        if b.op == "veclit" and t.args[1].args[0] < len(b.args):
            return b.args[t.args[1].args[0]]
    if not t.args or t.op in ("c", "phi"):
        return t
    new = [fold(a) if isinstance(a, T_) else tuple(fold(x) if isinstance(x, T_) else x for x in a) if isinstance(a, tuple) else a for a in t.args]
    if t.op in ("fadd", "fmul"):
        return mk(t.op, *sorted(new, key=lambda x: x.id))
    return t if all(x is y for x, y in zip(new, t.args)) else rebuild(t.op, new)


T_ = type(C(0))


class Record:
    """the bits of the five bytes of an event, as paths know them"""

    def __init__(self, I, order):
        self.I, self.order = I, order     # order: {array: value in terms of the place} for arrays indexed by the rank of the bit
        self.fact_memo, self.val_memo, self.words, self.direct_memo = {}, {}, {}, {}

    def condition(self, f):
        """(bytes, rank, polarity) when the condition asks for one bit"""
        if f not in self.fact_memo:
            self.fact_memo[f] = self._condition(f)
        return self.fact_memo[f]

    def _condition(self, f):
        J, B = mk("J"), mk("B")
        ranks = set()
        es = set()

        def walk(t):
            if t.op == "sel" and t.args[0] in self.order:
                ranks.add(t.args[1])
                return self.order[t.args[0]](J)
            if t.op == "sel":
                i = walk(t.args[1])
                if mentions(i, lambda y: y is J):
                    es.add((t.args[0], i))
                    return B
                return t
            if not t.args or t.op in ("c", "phi"):
                return t
            if t.op == "lin":
                c, d = lin_parts(t)
                out = C(c)
                for x, k in d.items():
                    out = add(out, mul(C(k), walk(x)))
                return out
            new = [walk(a) if isinstance(a, T_) else a for a in t.args]
            return rebuild(t.op, new)
        g = walk(f)
        if len(es) != 1 or len(ranks) != 1:
            return None
        e, i = es.pop()
        pol = None
        try:
            for j in range(40):
                if ceval(i, {J: j}) != j // 8:
                    return None
                for b in (0, 255, 1 << (j % 8), 255 ^ (1 << (j % 8)), 0x55, 0xAA):
                    v = ceval(g, {J: j, B: b})
                    bit = (b >> (j % 8)) & 1
                    p = bool(v) == bool(bit)
                    if int(v) not in (0, 1) or pol is not None and p is not pol:
                        return None
                    pol = p
        except NoValue:
            return None
        return e, ranks.pop(), pol

    def direct(self, s):
        """{(bytes, rank): bit} from what the path knows of the bytes themselves"""
        if id(s) in self.direct_memo:
            return self.direct_memo[id(s)]
        out = self.direct_memo[id(s)] = {}
        for f, v in s.facts.items():
            while f.op == "not":
                f, v = f.args[0], not v
            c = self.condition(f) if f.op in ("lt", "eq") else None
            if c is not None:
                out[c[:2]] = v if c[2] else not v
        return out

    def meanings(self, t, s, depth=0):
        """the (bytes, rank) pairs whose bit the value t, on path s, certainly is"""
        if t in (TRUE, FALSE) or is_int(t):
            v = 1 if t is TRUE else 0 if t is FALSE else t.args[0]
            return {k for k, b in self.direct(s).items() if int(b) == v}
        if t.op == "cast":
            return self.meanings(t.args[1], s, depth)
        if t.op in ("lt", "eq", "not"):
            pol = True
            while t.op == "not":
                t, pol = t.args[0], not pol
            if t in (TRUE, FALSE):
                return set()
            c = self.condition(t)
            return {c[:2]} if c is not None and c[2] is pol else set()
        if t.op != "phi" or depth > 4:
            return set()
        if t not in self.val_memo:
            self.val_memo[t] = set()
            out = None
            for u, sts in self.I.phi_in.get(t, {}).items():
                if u is t:
                    continue
                for z in sts:
                    m = self.meanings(u, z, depth + 1)
                    out = m if out is None else out & m
            self.val_memo[t] = out or set()
        return self.val_memo[t]

    def known(self, s, e, n):
        """bit n of the record e, if the path knows it"""
        d = self.direct(s)
        if (e, C(n)) in d:
            return d[(e, C(n))]
        for p in {y for f in s.facts for y in f.args if isinstance(y, T_) and y.op == "phi"}:
            if (e, C(n)) in self.meanings(p, s):
                return truth(self.I, s, p)
        return None

    def word(self, t):
        """(bytes, first rank, number of bits) of a number put together bit by bit, lowest first"""
        if t not in self.words:
            self.words[t] = self._word(t)
        return self.words[t]

    def _word(self, t):
        if t.op == "cast":
            return self.word(t.args[1])
        if t.op != "phi":
            return None
        I, head = self.I, t.args[0]
        ini = {u for u in I.phi_in.get(t, {}) if not mentions(u, lambda y: y is t)}
        back = [s for s in arrivals(I, head) if any(at(s, p) is add(p, C(1)) for p in I.phi_in if p.args[0] == head)]
        if ini != {C(0)} or not back:
            return None
        for j in [p for p in I.phi_in if p.args[0] == head and p is not t]:
            r = axis(I, j)
            if r is None or r[0] != 0 or not 1 <= r[1] <= 12:
                continue
            cands = None
            for s in back:
                d = {(e, sub(n, j)): b for (e, n), b in self.direct(s).items() if is_int(sub(n, j))}
                ok = set()
                for k, b in d.items():
                    if self.turn(at(s, t), t, j, r[1], lambda z: int(b)):
                        ok.add(k)
                # the bit itself may be part of the value
                if at(s, t) is not None:
                    for y in subterms(at(s, t)):
                        c = self.condition(y) if y.op in ("lt", "eq") else None
                        if c is not None and is_int(sub(c[1], j)) and self.turn_with(at(s, t), t, j, r[1], y, c[2]):
                            ok.add((c[0], sub(c[1], j)))
                cands = ok if cands is None else cands & ok
            if cands and len(cands) == 1:
                e, n0 = cands.pop()
                return e, n0.args[0], r[1]
        return None

    def turn(self, v, t, j, n, bit):
        """on this turn the number becomes itself with bit j set as it should: for all turns and all numbers whose bit j is not set yet"""
        if v is None:
            return False
        try:
            for J in range(n):
                for X in range(1 << n):
                    if not X >> J & 1 and ceval(v, {t: X, j: J}) != X | bit(J) << J:
                        return False
        except NoValue:
            return False
        return True

    def turn_with(self, v, t, j, n, y, pol):
        try:
            for J in range(n):
                for X in range(1 << n):
                    for b in (0, 1):
                        if not X >> J & 1 and ceval(v, {t: X, j: J, y: bool(b) is pol}) != X | b << J:
                            return False
        except NoValue:
            return False
        return True


def truth(I, s, p):
    """is a value of 0 or 1 known to be 1 / 0"""
    for c in (tlt(C(0), p), teq(p, C(1))):
        v = I.ev(s, c)
        if v is not None:
            return v
    v = I.ev(s, teq(p, C(0)))
    if v is None:
        v = I.ev(s, p)
        return v
    return not v


def order_of(ck, I, Bs, w):
    """arrays indexed by the rank of a bit: the places 0..40 ordered by their digit, then by place. Returns ({array: value of the place}, digits)"""
    out, digits = {}, set()
    for B in Bs:
        fam, work = set(), [B]
        bad = None
        ups = []
        while work:
            b = work.pop()
            if b in fam:
                continue
            fam.add(b)
            for t, sts in I.phi_in.get(b, {}).items():
                if t.op == "phi":
                    work.append(t)
                    if t is b:
                        ups += [(None, None, s, b) for s in sts]
                elif t.op == "store" and t.args[0].op == "phi":
                    work.append(t.args[0])
                    ups += [(t.args[1], t.args[2], s, b) for s in sts]
                elif t.op == "push" and t.args[0].op == "phi":
                    work.append(t.args[0])
                    ups += [(mk("len", t.args[0]), t.args[1], s, b) for s in sts]
        heads = {b.args[0] for i, v, s, b in ups if i is not None}
        if len(heads) != 1:
            return None, f"{show(B)} is not put together in one loop"
        inner = heads.pop()
        vals = set()
        for i, v, s, b in ups:
            eqs = {(f, val) for f, val in s.facts.items() if f.op == "eq" and any(unchar(x).op == "sel" for x in f.args) and any(unchar(x).op == "phi" for x in f.args)}
            js = [(unchar(x), unchar(y), val) for f, val in eqs for x, y in (f.args, f.args[::-1]) if unchar(x).op == "sel" and unchar(y).op == "phi" and unchar(x).args[1].op == "phi"]
            js = [(x, y, val) for x, y, val in js if x.args[1].args[0] == inner]
            if len(js) != 1:
                if b.args[0] == inner:
                    return None, "a place is taken without looking at its digit"
                continue
            x, c, val = js[0]
            j = x.args[1]
            if axis(I, j) != (0, 40) or axis(I, c) not in ((48, 58),):
                return None, f"the places run through {axis(I, j)}, the digits through {axis(I, c)}"
            if c.args[0] == inner or not mentions_head(I, inner, c.args[0]):
                return None, "places are not ordered by digit first"
            digits.add(x.args[0])
            if val is not (i is not None):
                return None, "a place is taken that has another digit, or one passed over"
            if i is None:
                continue
            vals.add((v, j))
            # the next place in the array is the next free one
            if i.op == "phi":
                cf = {p for p in I.phi_in if p.args[1:] == i.args[1:]}
                f2 = Family(I, i)
                if f2.init_terms() != {C(0)} or {d for d, _, _ in f2.steps} - {C(0), C(1)} or at(s, i) is not add(i, C(1)):
                    return None, f"places are put at {show(i)}"
                for i2, v2, s2, b2 in ups:
                    if i2 is None and b2.args[0] == inner and at(s2, i) is not i:
                        return None, "an entry of the order is left out"
            elif i.op != "len":
                return None, f"places are put at {show(i)}"
        if len(vals) != 1:
            return None, f"{len(vals)} kinds of entries"
        v, j = vals.pop()
        out_ = (lambda v_, j_: lambda J: subst(v_, {j_: J}))(v, j)
        for b in fam:
            out[b] = out_
    if len(digits) != 1:
        return None, "the places are ordered by different digits"
    return (out, digits.pop()), None


def mentions_head(I, inner, outer):
    """the inner loop is entered anew on every turn of the outer one"""
    return any(at(s, p) is not None and the_phi(at(s, p)) is not None and the_phi(at(s, p)).args[0] == inner for s in arrivals(I, outer) for p in I.phi_in if p.args[0] == outer) or \
        any(the_phi(t) is not None and the_phi(t).args[0] == outer for p in I.phi_in if p.args[0] == inner for t in I.phi_in[p])


def digit_text(t):
    """(text, place) of one character of a text"""
    t = unchar(t)
    if t.op == "." and t.args[1] == "Some.0":
        t = t.args[0]
    while t.op in ("ref", "*"):
        t = t.args[0]
    if t.op == "call" and t.args[0].endswith("::nth") and len(t.args[1]) == 2:
        b, k = t.args[1]
    elif t.op == "sel":
        b, k = t.args
    else:
        return None
    while True:
        if b.op in ("ref", "*", "bytes", "to_vec", "charsof"):
            b = b.args[0]
        elif b.op == "call" and (b.args[0].endswith("::chars") or b.args[0].endswith("::as_bytes") or b.args[0].endswith("::bytes")) and len(b.args[1]) == 1:
            b = b.args[1][0]
        else:
            break
    return (b, k) if is_int(k) else None


def long_text(t):
    while t.op in ("charsof", "ref", "*"):
        t = t.args[0]
    return eight_digits(t) is not None


def eight_digits(t):
    """the number a text shows with at least eight digits"""
    if t.op != "format":
        return None
    a = t.args[0]
    if a.op != "call" or len(a.args[1]) != 2:
        return None
    fmt, xs = a.args[1]
    fmt, xs = (y.args[0] if y.op == "ref" else y for y in (fmt, xs))
    if fmt is not mk("veclit", *(C(k) for k in (195, 32, 0, 0, 105, 8, 0, 0))) or xs.op != "veclit" or len(xs.args) != 1:
        return None
    x = xs.args[0]
    if x.op == "call" and x.args[0].endswith("new_display"):
        x = x.args[1][0]
        while x.op in ("ref", "*"):
            x = x.args[0]
        return x
    return None


def v20(ck):
    ck.rule = ("The MVF reader, analysed over an arbitrary byte string: header layout; the five texts the bit order comes from, as terms over the two leading bytes; the order is by digit, then place; every bit of an event is asked for by its rank, "
               "numbers are put together lowest bit first (each turn evaluated for all numbers); which events a record stands for, on every path; every failing exit is justified by a fact about the bytes.")
    p = prog()
    numbers = fn_named(p, "utils::cal_board_numbers").name
    g, I, ex = run("parse_video", None, impl="MvfVideo", opaque=[numbers], split=True)
    ck.use(I, ex)
    w = wh(g)
    o = lambda k: add(OFF0, C(k))
    off = lambda z: mine_off(I, z, ("width", "height"), 1) or beside(I, z)
    T = Trail(I, off)
    oks = [e for e in ex if not is_err(e.val)]
    ck.ob("reads", len(oks) > 0, "never succeeds", w)
    for e in ex:
        if is_err(e.val):
            mvf_error(ck, I, e, o, off, w)
    for e in oks:
        me = e.st.mem.get(("P", "self"), SELF)
        got = lambda *q: F("data", *q, of=me)
        ck.ob("signature", mvf_signed(I, e.st, o) is True, "a file without the signature of version 0.97 is read", w)
        ck.ob("can_analyse", got("can_analyse") is TRUE, "a file that was read is not marked fit for analysis", w)
        ck.ob("is_offical", got("is_offical") is TRUE and got("is_fair") is TRUE, "a file of the official program is not marked so", w)
        ck.ob("software", text_of(got("software")) == "0.97 beta", f"the program is {show(got('software'))[:100]}", w)
        mvf_header(ck, I, T, e, got, o, w)
        b = numbered_board(ck, "board", I, got("board"), numbers, w)
        r = mines_read(ck, "board", I, b, lambda c, d: (mk("cast", "usize", add(d, C(-1))), mk("cast", "usize", add(c, C(-1)))), w, off) if b is not None else None
        if r is None or r[2] is None:
            continue
        cs, into, mpos = r
        mvf_board(ck, I, cs, into, mpos, o, w)
        N = be(o(99), 2)
        L = add(o(101), mul(C(2), N))
        mvf_name(ck, I, T, got, L, w)
        mvf_events(ck, I, T, got, add(L, add(C(1), raw(L))), w)
    ck.floor("successful exits", len(oks), 1)


def mvf_signed(I, st, o):
    vs = [I.ev(st, teq(raw(o(0)), C(0x11))), I.ev(st, teq(raw(o(1)), C(0x4D))), is_char(I, st, raw(o(27)), "5")]
    return False if False in vs else True if all(v is True for v in vs) else None


def mvf_error(ck, I, e, o, off, w):
    me = e.st.mem.get(("P", "self"), SELF)
    ck.ob("unreadable", F("data", "can_analyse", of=me) is not TRUE, "a file that was not read is marked fit for analysis", w)
    why = get_field(e.val, "Err.0")
    n = why.args[1] if why.op == "S" else None
    if n == "FileIsTooShort":
        ck.ob("error/short", too_short(e.st), "fails although no position is past the end of the file", w)
    elif n == "FileIsEmpty":
        ck.ob("error/empty", I.ev(e.st, tlt(OFF0, mk("len", RAW))) is False, "called empty although a byte can be read", w)
    elif n == "InvalidMinePosition":
        ck.ob("error/mine", off(e.st), "a mine on the board is refused", w)
    elif n == "InvalidBoardSize":
        ck.ob("error/size", any(byte_set(e.st, raw(o(k))) <= {0} for k in (97, 98)), "a board with cells is refused", w)
    elif n == "InvalidLevel":
        ck.ob("error/level", byte_set(e.st, raw(o(81))) <= {254, 255}, "a level is refused", w)
    elif n == "InvalidParams":
        none = any(v and f.op == "eq" and C(0) in f.args and any(is_count(x) for x in f.args) or v is True and f.op == "lt" and f.args[1] is C(1) and is_count(f.args[0]) for f, v in e.st.facts.items())
        ck.ob("error/version", mvf_signed(I, e.st, o) is False or none, "a file of version 0.97 is refused", w)
    else:
        ck.fail("error", f"fails with {show(why)}", w)


def beside(I, st):
    """the path knows of a pair of bytes, each less one, whose first is no column or whose second is no row"""
    me = st.mem.get(("P", "self"), SELF)
    for x in {x for f in st.facts for x in f.args if isinstance(x, T_) and x.op == "cast" and x.args[0] == "usize"}:
        b = add(x.args[1], C(1))
        p = the_phi(b.args[1]) if b.op == "sel" and b.args[0] is RAW else None
        k = sub(b.args[1], p) if p is not None else None
        d = "width" if k is C(0) else "height" if k is C(1) else None
        if d and any(I.ev(st, tlt(x, y)) is False for y in twins(I, F("data", d, of=me))):
            return True
    return False


def is_count(t):
    """a number of three bytes in a row"""
    if t.op != "lin":
        return False
    c, d = lin_parts(t)
    by = {k: x for x, k in d.items()}
    return c == 0 and set(by) == {1, 256, 65536} and all(x.op == "sel" and x.args[0] is RAW for x in by.values()) and \
        sub(by[1].args[1], by[256].args[1]) is C(1) and sub(by[256].args[1], by[65536].args[1]) is C(1)


def mvf_header(ck, I, T, e, got, o, w):
    ck.ob("level", got("level") is add(raw(o(81)), C(2)), f"the level becomes {show(got('level'))[:100]}", w)
    ck.ob("bbbv", got("static_params", "bbbv") is be(o(86), 2), f"the 3BV becomes {show(got('static_params', 'bbbv'))[:100]}", w)
    for nm, k in (("width", 97), ("height", 98)):
        ck.ob(nm, got(nm) is raw(o(k)), f"{nm} becomes {show(got(nm))[:100]}", w)
    ck.ob("mine_num", got("mine_num") is be(o(99), 2), f"the mine number becomes {show(got('mine_num'))[:100]}", w)
    sec, hun = i2f(be(o(83), 2)), i2f(raw(o(85)))
    t = mk("fadd", *sorted((sec, fdiv(hun, C(100.0))), key=lambda x: x.id))
    v = got("game_dynamic_params", "rtime")
    ck.ob("rtime", v is t, f"the time becomes {show(v)[:150]}", w)
    ms = got("game_dynamic_params", "rtime_ms")
    ck.ob("rtime_ms", ms is mk("f2i", "u32", mk("f.round", fmul(C(1000.0), v))), f"rtime_ms becomes {show(ms)[:150]}", w)
    m = raw(o(82))
    seen = set()
    for v, s in values(I, got("mode"), e.st):
        cs = byte_set(s, m)
        for c in cs:
            try:
                k = ceval(v, {m: c})
            except NoValue:
                k = None
            ck.ob("mode", k == {1: 0, 2: 3, 3: 1}.get(c, 2), f"mode {c} is read as {show(v)[:60]}", w)
        seen |= cs
    ck.ob("mode/all", seen == set(range(256)), "some modes are not read", w)


def values(I, t, st, depth=0):
    """[(value, state)] a merged value is made of"""
    if t.op != "phi" or depth > 6:
        return [(t, st)]
    return [x for u, sts in I.phi_in.get(t, {}).items() if u is not t for s in sts for x in values(I, u, s, depth + 1)]


def mvf_board(ck, I, cs, into, mpos, o, w):
    for s in into:
        me = s.mem.get(("P", "self"), SELF)
        ck.ob("board/pos", at(s, mpos) is o(101), f"the mines are read from {show(at(s, mpos))[:100]}", w)
        b = F("data", "board", of=me)
        ck.ob("board/size", b is mk("from_elem", mk("from_elem", C(0), raw(o(97))), raw(o(98))), f"the board starts as {show(b)[:150]}", w)
    rmv_mines_inside(ck, I, cs, w)


def mvf_name(ck, I, T, got, L, w):
    v = got("player_designator")
    if not ck.ob("player", v.op == "phi", f"the name becomes {show(v)[:100]}", w):
        return
    for a, m, _ in listed(ck, "player", I, T, v, {}, w, F("data", "player_designator")):
        ck.ob("player/pos", a is add(L, C(1)) and m is raw(L), f"the name is read from {show(a)[:150]}, {show(m)[:100]} bytes", w)


def mvf_events(ck, I, T, got, Q, w):
    v = got("video_action_state_recorder")
    if not ck.ob("events", v.op == "phi", f"the records become {show(v)[:200]}", w):
        return
    head = v.args[0]
    back = [s for s in arrivals(I, head) if s not in T.into(head)]
    into = T.into(head)
    # the order of the bits
    conds = [f for s in {id(z): z for d in I.phi_in.values() for zs in d.values() for z in zs}.values() for f in s.facts if f.op in ("lt", "eq") and any(y.op in ("band", "Shr") for y in subterms(f))]
    rk = ranked(I)
    Bs = {y.args[0] for f in conds for y in subterms(f) if y.op == "sel" and y.args[0].op == "phi" and y.args[0].args[0] in rk and not mentions(y.args[1], lambda u: u.op == "sel")}
    got_, why = order_of(ck, I, sorted(Bs, key=lambda b: b.id), w) if Bs else (None, "no bit is asked for by its rank")
    if not ck.ob("order", got_ is not None, why, w):
        return
    R = Record(I, got_[0])
    mvf_digits(ck, I, T, got_[1], Q, w)
    # first event
    fam0 = [(x, s) for s in into for x in pushed(at(s, v))[1]]
    for s in into:
        base, items = pushed(at(s, v))
        ck.ob("events/from", base is F("data", "video_action_state_recorder") and len(items) == 1, f"the records begin with {show(at(s, v))[:120]}", w)
        # what the first turn knows of the one before
    es0 = {e for x, s in fam0 for e in record_of(ck, "first", I, R, x, s, w)}
    ways = set()
    for x, s in fam0:
        es = record_of(ck, "first", I, R, x, s, w)
        if len(es) != 1:
            continue
        e = next(iter(es))
        for k in range(5):
            b = byte_at(I, e, k)
            q = {t for t, _ in T.resolve(b.args[1])} if b is not None and b.op == "sel" and b.args[0] is RAW else set()
            ck.ob("first/bytes", q == {add(Q, C(5 + k))}, f"byte {k} of the first event is read from {[show(t)[:120] for t in q]}", w)
        bits = {n: R.known(s, e, BITS_OF[n][0]) for n in ("rb", "mb", "lb")}
        m = text_of(get_field(x, "mouse"))
        exp = None
        for n, name in (("mb", "mc"), ("rb", "rc"), ("lb", "lc")):
            if bits[n] is None:
                break
            if bits[n]:
                exp = name
                break
        else:
            exp = "mv"
        ways.add(exp)
        ck.ob("first/mouse", exp is not None and m == exp, f"the first event is {m} with buttons {bits}", w)
    ck.ob("first/ways", ways == {"mc", "rc", "lc", "mv"}, f"the first event can be {sorted(str(x) for x in ways)}", w)
    # the others
    cnt = add(mul(C(65536), raw(add(Q, C(2)))), add(mul(C(256), raw(add(Q, C(3)))), raw(add(Q, C(4)))))
    n_ok = False
    for s in into:
        n = T.turns(head, s)
        ts = {t for t, _ in T.resolve(n, {head: s})} if n is not None else set()
        n_ok = ts == {add(cnt, C(-1))}
        ck.ob("events/number", n_ok, f"{[show(t)[:120] for t in ts]} events follow the first", w)
    seen = set()
    for s in back:
        base, items = pushed(at(s, v))
        if base is v:
            seen |= turn_events(ck, I, R, s, [(text_of(get_field(x, "mouse")), x, s) for x in items], head, es0, w)
            continue
        r = list_loop(I, base, v) if not items else None
        if not ck.ob("events/kept", r is not None, f"the records become {show(at(s, v))[:120]}", w):
            continue
        lists, x, sx = r
        for names, z in lists:
            seen |= turn_events(ck, I, R, z, [(m, x, sx) for m in names] or [(None, x, sx)], head, es0, w, not names)
        break
    ck.ob("events/ways", len(seen) == 54, f"{len(seen)} kinds of turns", w)


def ranked(I):
    """loops that write arrays at a place that is counted up only now and then"""
    out = set()
    for b in I.phi_in:
        for t in I.phi_in[b]:
            if t.op == "store" and t.args[1].op == "phi" or t.op == "push":
                out.add(b.args[0])
    return out | {b.args[0] for b in I.phi_in for t in I.phi_in[b] if t.op == "phi" and t.args[0] in out}


def pushed(t):
    items = []
    while t.op == "push":
        items.insert(0, t.args[1])
        t = t.args[0]
    return t, items


def list_loop(I, base, v):
    """the records of a turn are made in a loop over a list of names: ([(names, state)], record, state)"""
    if base.op != "phi":
        return None
    head = base.args[0]
    ins = I.phi_in.get(base, {})
    ent = [(t, s) for t, sts in ins.items() if t is v for s in sts]
    upd = [(t, s) for t, sts in ins.items() if t.op == "push" and t.args[0] is base for s in sts]
    if len(ent) + len(upd) != sum(len(x) for x in ins.values()) or not upd or len({t for t, _ in upd}) != 1:
        return None
    x, sx = upd[0][0].args[1], upd[0][1]
    m = get_field(x, "mouse")
    while m.op in ("ref", "*", "clone"):
        m = m.args[0]
    if m.op != "sel" or the_phi(m.args[1]) is not m.args[1]:
        return None
    B, i = m.args
    own = {t for t in I.phi_in.get(i, {}) if the_phi(t) is i}
    if own != {add(i, C(1))} or {t for t in I.phi_in[i] if t not in own} != {C(0)}:
        return None
    out = []
    for t, s in ent:
        L = at(s, B) if B.op == "phi" else B
        if L is None or L.op != "veclit":
            return None
        for u in uppers(sx, i):
            n = at(s, u) if u.op == "phi" and u.args[0] == head else mk("len", L) if u is mk("len", B) else u
            if (n is C(len(L.args)) or n is mk("len", L)) and all(I.ev(z, tlt(i, u)) is False for z in I.leaves.get(head, ())):
                break
        else:
            return None
        out.append(([text_of(y) for y in L.args], s))
    return out, x, sx


def record_of(ck, k, I, R, x, s, w):
    """the five bytes an event's position and time come from"""
    es = set()
    for f in ("x", "y"):
        r = R.word(get_field(x, f))
        if not ck.ob(f"{k}/{f}", r is not None and r[1:] == BITS_OF[f], f"{f} is {r[1:] if r else show(get_field(x, f))[:100]}", w):
            return set()
        es.add(r[0])
    t = get_field(x, "time")
    got = seconds(t)
    r = [R.word(y) if y is not None else None for y in got]
    if not ck.ob(k + "/time", r[0] is not None and r[1] is not None and r[0][1:] == BITS_OF["ths"] and r[1][1:] == BITS_OF["sec"], f"the time is {show(t)[:150]}", w):
        return set()
    es |= {r[0][0], r[1][0]}
    ck.ob(k + "/one", len(es) == 1, "an event is made from several records", w)
    return es


def seconds(t):
    """(hundredths, seconds) of a time"""
    if t.op != "fadd":
        return None, None
    for a, b in (t.args, t.args[::-1]):
        if a.op == "fdiv" and a.args[0].op == "i2f" and a.args[1].op == "c" and b.op == "i2f":
            y = a.args[0].args[-1]
            c, d = lin_parts(y)
            if c == 0 and len(d) == 1:
                h, k = next(iter(d.items()))
                if a.args[1].args[0] == 100.0 * k:
                    return h, b.args[-1]
    return None, None


def turn_events(ck, I, R, z, evs, head, es0, w, none=False):
    """on the path z of a turn, the events recorded are those its bits stand for; returns the kinds of turns seen"""
    for p in {y for f in z.facts for y in f.args if isinstance(y, T_) and y.op == "phi"}:
        if I.ev(z, tlt(C(0), p)) is True and I.ev(z, teq(p, C(1))) is False and {u for v, _ in values(I, p, z) for u in [v]} <= {C(0), C(1), p}:
            return set()      # a bit that is neither 0 nor 1
    es = set()
    for m, x, sx in evs:
        es |= record_of(ck, "events", I, R, x, sx, w)
    if not ck.ob("events/record", len(es) == 1, "the events of one turn are not made from one record", w):
        return set()
    e = es.pop()
    pos = [byte_at(I, e, k) for k in range(5)]
    q = the_phi(pos[0].args[1]) if pos[0] is not None and pos[0].op == "sel" and pos[0].args[0] is RAW else None
    ck.ob("events/bytes", q is not None and q.args[0] == head and pos[0].args[1] is q and all(b is raw(add(q, C(k))) for k, b in enumerate(pos)), f"a record is read from {[show(b)[:40] if b is not None else None for b in pos]}", w)
    if q is not None:
        own = {advance(I, t, q) for t in I.phi_in.get(q, {}) if advance(I, t, q) is not None}
        first = {t for t in I.phi_in.get(q, {}) if advance(I, t, q) is None}
        ck.ob("events/step", own == {5}, f"a record is followed by the one {sorted(own)} bytes on", w)
        for e0 in es0:
            b4 = byte_at(I, e0, 4)
            T = Trail(I)
            ck.ob("events/next", b4 is not None and b4.op == "sel" and {u for t in first for u, _ in T.resolve(t)} == {u for u, _ in T.resolve(add(b4.args[1], C(1)))}, f"the second record is read from {[show(t)[:80] for t in first]}", w)
    x, y = get_field(evs[0][1], "x"), get_field(evs[0][1], "y")
    now = {n: R.known(z, e, BITS_OF[n][0]) for n in ("rb", "mb", "lb")}
    prev = {n: before(I, R, z, e, es0, BITS_OF[n][0], head) for n in ("rb", "mb", "lb")}
    moved = shifted(I, z, x, y, head)
    names = [m for m, _, _ in evs] if not none else []
    exp = []
    unknown = moved is None
    if moved:
        exp.append("mv")
    for down in (True, False):
        for n, name in (("lb", "l"), ("rb", "r"), ("mb", "m")):
            # both are needed only where the first does not decide
            a, b = (now[n], prev[n]) if down else (flip(now[n]), flip(prev[n]))
            if a is False or b is True:
                continue
            if a is None or b is None:
                unknown = True
            elif a and not b:
                exp.append(name + ("c" if down else "r"))
    ck.ob("events/kinds", not unknown and names == exp, f"records {names} where moved={moved}, buttons {now}, before {prev}", w)
    return {(tuple(names))}


def advance(I, t, q):
    """how many bytes on from q the position t is, through loops over a constant number of bytes"""
    k = C(0)
    for _ in range(6):
        p = the_phi(t)
        if p is None:
            return None
        k = add(k, sub(t, p))
        if p is q:
            return k.args[0] if is_int(k) else None
        own = {u for u in I.phi_in.get(p, {}) if the_phi(u) is p}
        ins = {u for u in I.phi_in.get(p, {}) if the_phi(u) is not p}
        if len(ins) != 1 or own not in ({add(p, C(1))}, {p}, set()):
            return None
        if own == {add(p, C(1))}:
            n = None
            for c in [c for c in I.phi_in if c.args[0] == p.args[0] and c is not p]:
                r = axis(I, c)
                if r is not None:
                    n = r[1] - r[0]
            if n is None:
                return None
            k = add(k, C(n))
        t = ins.pop()
    return None


def before(I, R, z, e, es0, n, head):
    """bit n of the record before, if the path knows it"""
    into = [s for s in arrivals(I, head)]
    for p in [p for p in I.phi_in if p.args[0] == head]:
        good = bool(I.phi_in[p])
        for t, sts in I.phi_in[p].items():
            for s in sts:
                ms = R.meanings(t, s)
                if not any((x, C(n)) in ms for x in ({e} | es0)) and t is not p:
                    good = False
        if good:
            v = truth(I, z, p)
            if v is not None:
                return v
        # the bytes themselves are kept
        if {the_filled(t) for t in I.phi_in[p]} <= {e} | es0:
            v = R.known(z, p, n)
            if v is not None:
                return v
    return None


def the_filled(t):
    return t


def shifted(I, z, x, y, head):
    """does the path know that the position differs from the last one / is the same"""
    out = []
    for v in (x, y):
        r = None
        for p in [p for p in I.phi_in if p.args[0] == head]:
            own = {t for t, sts in I.phi_in[p].items() if t is v}
            if own:
                c = I.ev(z, teq(v, p))
                r = c if c is not None else r
        out.append(r)
    return True if False in out else False if out == [True, True] else None


def mvf_digits(ck, I, T, S, Q, w):
    """the forty digits"""
    fl = Filled(I, S)
    if not ck.ob("digits", fl.why is None, fl.why or "", w):
        return
    at_ = {}
    for k in range(40):
        ch = fl[k]
        r = digit_text(ch) if ch is not None else None
        x = eight_digits(r[0]) if r is not None and r[1] is C(k % 8) else None
        if not ck.ob("digits/text", x is not None, f"digit {k} is {show(ch)[:150] if ch is not None else None}", w):
            continue
        good = False
        lead = {y for y in subterms(x) if y.op == "i2f"}
        if len(lead) == 1:
            l = lead.pop()
            if l not in at_:
                at_[l] = subst_pos(T, l.args[-1])
            good = at_[l] == {be(Q, 2)} and x is magic(l, k // 8)
        ck.ob("digits/value", good, f"digits {8 * (k // 8)} to {8 * (k // 8) + 7} are those of {show(x)[:200]}", w)


def subst_pos(T, t):
    c, d = lin_parts(t) if t.op == "lin" else (0, {t: 1})
    outs = [C(c)]
    for x, k in d.items():
        outs = [add(a, mul(C(k), b)) for a in outs for b, _ in T.resolve(x)]
    return set(outs)


def fa(a, b):
    return mk("fadd", *sorted((a, b), key=lambda t: t.id))


def magic(l, k):
    sq = lambda t: mk("f.sqrt", t)
    n1 = sq(l)
    n2 = sq(fa(C(1000.0), l))
    n3 = sq(fa(C(1000.0), n1))
    X = [mk("f.cos", fa(C(1000.0), n3)), mk("f.sin", sq(n2)), mk("f.cos", n3), mk("f.sin", fa(C(1000.0), sq(n1))), mk("f.cos", sq(fa(C(1000.0), n2)))][k]
    return mk("f2i", "usize", mk("f.round", mk("f.abs", fmul(C(100000000.0), X))))
