"""Questions about loops answered from the phi terms of an analysis."""
from terms import *


def is_phi(t):
    return t.op == "phi"


def lin_parts(t):
    if t.op == "lin":
        return t.args[0], dict(t.args[1])
    if is_int(t):
        return t.args[0], {}
    return 0, {t: 1}


class Family:
    """the phis that carry one variable around a loop nest: initial terms and per-edge changes"""

    def __init__(self, I, phi, vecs=False):
        self.I = I
        self.phis = set()
        self.inits = []      # (term, state)
        self.steps = []      # (delta term, state, base phi)   term == phi + delta
        self.pushes = []     # (element, state)
        self.others = []
        work = [phi]
        root = (phi.args[1], phi.args[2])
        while work:
            p = work.pop()
            if p in self.phis:
                continue
            self.phis.add(p)
            for t, sts in I.phi_in.get(p, {}).items():
                for st in sts:
                    self.edge(p, t, st, work)

    def edge(self, p, t, st, work):
        if t.op == "phi":
            work.append(t)
            self.steps.append((C(0), st, t))
            return
        if t.op == "lin":
            c, d = lin_parts(t)
            ph = [x for x, k in d.items() if x.op == "phi" and k == 1]
            ph = [x for x in ph if x.args[1][0] == p.args[1][0]] or ph
            if ph:
                # prefer a phi of the same location
                q = [x for x in ph if x.args[1:] == p.args[1:]] or ph
                q = q[0]
                work.append(q)
                self.steps.append((sub(t, q), st, q))
                return
        if t.op == "push":
            items = []
            b = t
            while b.op == "push":
                items.append(b.args[1])
                b = b.args[0]
            for x in items:
                self.pushes.append((x, st))
            if b.op == "phi":
                work.append(b)
            else:
                self.inits.append((b, st))
            return
        self.inits.append((t, st))

    def init_terms(self):
        return {t for t, _ in self.inits}

    def forgets(self):
        """'' when what was gathered is always carried on: every way round a loop builds on the value the loop had, and only the outermost loop of a nest starts afresh"""
        I, src = self.I, {}
        for p in self.phis:
            src[p] = {x for t in I.phi_in.get(p, {}) for x in subterms(t) if x in self.phis}
        reach = {}
        for p in self.phis:
            seen, todo = set(), list(src[p])
            while todo:
                q = todo.pop()
                if q not in seen:
                    seen.add(q)
                    todo += src[q]
            reach[p] = seen
        for p in self.phis:
            for s in arrivals(I, p.args[0]):
                v = at(s, p)
                if v is not None and came_round(I, p.args[0], s) and not any(q is p or p in reach[q] for q in subterms(v) if q in self.phis):
                    return f"the value gathered so far is dropped: the next turn has {show(v)[:80]}"
            fresh = {q for q in self.phis if (q is p or q in reach[p] and p in reach[q]) and any(not any(x in self.phis for x in subterms(t)) for t in I.phi_in.get(q, {}))}
            if len({q.args[0] for q in fresh}) > 1:
                return "an inner loop starts the value afresh"
        return ""


def came_round(I, head, s):
    """the path reaches the head of the loop from within it"""
    for x in I.phi_in:
        if x.args[0] == head:
            v = at(s, x)
            if v is not None and any(y is x for y in subterms(v)):
                return True
    return False


def phi_range(I, phi):
    """(init, step, bound) of an induction variable: unique initial term, constant step, and the
    terms B for which a continuing edge knows phi < B"""
    fam = Family(I, phi)
    return fam


def facts_about(st, pred):
    return [(t, v) for t, v in st.facts.items() if mentions(t, pred)]


def index_chain(t):
    """sel(sel(base,i),j) -> (base, [i, j])"""
    idx = []
    while t.op == "sel":
        idx.append(t.args[1])
        t = t.args[0]
    idx.reverse()
    return t, idx


def bounds_on(st, t):
    """(uppers, lowers): terms B with t < B, and L with L <= t, known in st"""
    ups, los = [], []
    for f, v in st.facts.items():
        while f.op == "not":
            f, v = f.args[0], not v
        if f.op != "lt":
            continue
        d = sub(f.args[0], f.args[1])      # d < 0 (v) or d >= 0 (not v)
        c, parts = lin_parts(d)
        tc, tp = lin_parts(t)
        if not tp:
            continue
        for sign in (1, -1):
            if all(parts.get(x, 0) == sign * k for x, k in tp.items()):
                rest = sub(d, t) if sign == 1 else add(d, t)
                # sign 1: t + rest < 0 -> t < -rest ; not: t >= -rest
                # sign -1: -t + rest < 0 -> t > rest -> rest+1 <= t ; not: t <= rest -> t < rest+1
                if sign == 1:
                    (ups if v else los).append(neg(rest))
                else:
                    if v:
                        los.append(add(rest, C(1)))
                    else:
                        ups.append(add(rest, C(1)))
    return ups, los


def the_phi(t):
    c, d = lin_parts(t)
    ph = [x for x, k in d.items() if x.op == "phi" and k == 1]
    return ph[0] if len(ph) == 1 else None


def axis_ok(I, st, t, centre, dims, early=None):
    """t, at a point with state st, ranges over exactly the cells of the 3-wide window around `centre`
    that lie on the board (dims: the accepted names of the dimension), and its loop is left only when it has
    (or where early(state) says nothing is missed). '' or the reason why not."""
    p = the_phi(t)
    if p is None:
        return f"index {show(t)} is not a loop variable"
    r = sub(t, p)
    fam = Family(I, p)
    deltas = {d for d, _, _ in fam.steps if d is not C(0)}
    clip_lo = add(tmax(centre, C(1)), C(-1))
    ups, los = bounds_on(st, t)
    if deltas == {C(1)}:
        starts = {(add(i, r)) for i in fam.init_terms()}
        if not starts:
            return "window start unknown"
        for i, ist in fam.inits:
            s0 = add(i, r)
            if s0 is clip_lo:
                continue
            if s0 is sub(centre, C(1)) and (any(x is C(0) for x in los) or (ist is not None and I.ev(ist, tlt(centre, C(1))) is False)):
                continue
            if s0 is C(0) and ist is not None and I.ev(ist, tlt(centre, C(1))) is True:
                continue
            return f"window starts at {show(s0)}, not one before {show(centre)} clipped at the edge"
        for d in dims:
            if any(window_end(I, st, u, centre, d) for u in ups) or any(u is add(centre, C(2)) for u in ups) and any(u is d for u in ups):
                return left_early(I, p, window_done(I, t, centre, [d]), early)
        return f"window ends at {[show(u) for u in ups][:4]}, not one after {show(centre)} clipped at the edge"
    if deltas == {C(-1)}:
        return "descending window"
    return f"window index advances by {[show(d) for d in deltas]}"


def window_done(I, t, centre, dims):
    """predicate: the path knows that t has passed the end of the clipped window"""
    def done(s):
        for L in bounds_on(s, t)[1]:
            if any(window_end(I, s, L, centre, d) or L is d for d in dims) or L is add(centre, C(2)):
                return True
        return False
    return done


def axis_done(I, t, dims):
    """predicate: the path knows that t has passed the end of the dimension"""
    return lambda s: any(L is d for L in bounds_on(s, t)[1] for d in dims)


def left_early(I, p, done, early=None):
    for s in I.leaves.get(p.args[0], ()):
        if not done(s) and not (early and early(s)):
            return "the loop is left early when " + "; ".join(("" if v else "not ") + show(f)[:80] for f, v in list(s.facts.items())[-3:])
    return ""


def rows_skipped(I, i, done_j, early=None, j=None):
    """a turn of the row loop that does not go through the cells of the row"""
    p = the_phi(i)
    q = the_phi(j) if j is not None else None
    if q is not None and q.args[0] == p.args[0]:
        return ""
    for s in arrivals(I, p.args[0]):
        v = at(s, p)
        if v is not None and v is not p and the_phi(v) is p and not done_j(s) and not (early and early(s)):
            return "a row is passed without going through its cells when " + "; ".join(("" if v else "not ") + show(f)[:80] for f, v in list(s.facts.items())[-3:])
    return ""


def turns(I, j):
    """the paths that come round the loop of the index j"""
    p = the_phi(j)
    out = []
    for s in arrivals(I, p.args[0]):
        v = at(s, p)
        if v is not None and v is not p and the_phi(v) is p:
            out.append(s)
    return out


def window_ok(I, st, i, j, centre, rows, cols, early=None):
    """(i, j) ranges over exactly the cells of the clipped 3x3 window round `centre`; '' or the reason why not"""
    return (axis_ok(I, st, i, centre[0], rows, early) or axis_ok(I, st, j, centre[1], cols, early)
            or rows_skipped(I, i, window_done(I, j, centre[1], cols), early, j))


def board_ok(I, st, i, j, rows, cols, early=None):
    """(i, j) ranges over every cell of the board; '' or the reason why not"""
    return full_axis(I, st, i, rows, early=early) or full_axis(I, st, j, cols, early=early) or rows_skipped(I, i, axis_done(I, j, cols), early, j)


def window_end(I, st, u, centre, d, depth=0):
    """the exclusive bound u is min(d, centre+2), in closed form or chosen by branches"""
    full = add(centre, C(2))
    if u is tmin(d, full):
        return True
    fits = I.ev(st, tlt(add(centre, C(1)), d)) if st is not None else None
    if u is full and (fits is True or st is not None and I.ev(st, tlt(d, full)) is False):
        return True
    if u is d and (fits is False or st is not None and I.ev(st, tlt(full, d)) is False):
        return True
    if st is not None and u is add(centre, C(1)) and I.ev(st, tlt(add(centre, C(1)), d)) is False:
        return True
    p = the_phi(u)
    if p is not None and depth < 4 and I.phi_in.get(p):
        r = sub(u, p)
        return all(t is p or window_end(I, s, add(t, r), centre, d, depth + 1) for t, sts in I.phi_in[p].items() for s in sts)
    return False


def full_axis(I, st, t, dims, start=C(0), early=None):
    """t runs over every index start..dim, and its loop is left only at the end (or where early(state) says nothing is missed)"""
    p = the_phi(t)
    if p is None:
        return f"index {show(t)} is not a loop variable"
    r = sub(t, p)
    fam = Family(I, p)
    deltas = {d for d, _, _ in fam.steps if d is not C(0)}
    if deltas != {C(1)}:
        return f"index advances by {[show(d) for d in deltas]}"
    for i in fam.init_terms():
        if add(i, r) is not start:
            return f"index starts at {show(add(i, r))}"
    ups, los = bounds_on(st, t)
    if not any(u is d for u in ups for d in dims):
        return f"index ends at {[show(u) for u in ups][:4]}"
    return left_early(I, p, axis_done(I, t, dims), early)


def peel(t):
    """a container value written cell by cell: (base, [(row, column, value)...]) newest first; rows may be replaced whole"""
    out = []
    while t.op == "store":
        b, i, r = t.args
        if r.op == "store" and r.args[0] is select(b, i):
            # several cells of one row
            while r.op == "store":
                out.append((i, r.args[1], r.args[2]))
                r = r.args[0]
            if r is not select(b, i):
                out.append((i, None, r))
        else:
            out.append((i, None, r))
        t = b
    return t, out


class Cells:
    """every write that reaches one grid on its way through the loops: (row, column, value, state)"""

    def __init__(self, I, t, st=None, ops=("store",)):
        self.I = I
        self.writes = []
        self.bases = []       # (term, state) the grid starts from
        self.kept = []        # (phi, state) loop edges that leave the grid as it is
        self.edges = []       # (phi, term, state, [writes])
        self.phis = set()
        work = []
        self.one(t, st, work)
        while work:
            p = work.pop()
            if p in self.phis:
                continue
            self.phis.add(p)
            for t, sts in I.phi_in.get(p, {}).items():
                for s in sts:
                    ws = self.one(t, s, work)
                    self.edges.append((p, t, s, ws))
                    if t is p:
                        self.kept.append((p, s))

    def one(self, t, st, work):
        b, ws = peel(t)
        for i, j, v in ws:
            self.writes.append((i, j, v, st))
        if b.op == "phi":
            work.append(b)
        else:
            self.bases.append((b, st))
        return ws


class Worklist:
    """the list of pending cells a flood works off: items popped from it, items pushed on it"""

    def __init__(self, I, pred=None):
        self.I = I
        self.ok = False
        heads = {}
        for p, ins in I.phi_in.items():
            for t, sts in ins.items():
                b = t
                while b.op == "push":
                    b = b.args[0]
                if b.op in ("popped", "removed") and b.args[0].op == "phi":
                    heads.setdefault(b.args[0], 0)
        heads = [h for h in heads if pred is None or pred(h)]
        self.heads = heads
        if len(heads) != 1:
            return
        self.w = heads[0]
        self.item = None
        self.phis = set()
        self.pushes = []     # (element, state, phi of the head the push belongs to)
        self.kept = []       # (phi, state)
        self.dropped = []    # states that take an item off and go for the next without entering a loop
        self.inits = []
        self.other = []
        work = [self.w]
        while work:
            p = work.pop()
            if p in self.phis:
                continue
            self.phis.add(p)
            for t, sts in I.phi_in.get(p, {}).items():
                for s in sts:
                    b = t
                    items = []
                    while b.op == "push":
                        items.append(b.args[1])
                        b = b.args[0]
                    for x in items:
                        self.pushes.append((x, s, p))
                    if b is p and not items:
                        self.kept.append((p, s))
                    if b.op in ("popped", "removed"):
                        if b.args[0] is not self.w:
                            self.other.append(t)
                            continue
                        x = select(self.w, add(mk("len", self.w), C(-1)) if b.op == "popped" else b.args[1])
                        if self.item not in (None, x):
                            self.other.append(t)
                        self.item = x
                        if p is self.w and not items:
                            self.dropped.append(s)
                        continue
                    if b.op == "phi":
                        work.append(b)
                    elif p is self.w:
                        self.inits.append((t, s))
                    else:
                        self.other.append(t)
        self.ok = True


def flood_pushes(ck, k, I, W, centre, dims, wanted, unwanted, w, stops=None, early=None):
    """obligations: items pushed on worklist W are exactly the cells of the clipped window round `centre` for which
    wanted(state, i, j) is known; a window cell passed without a push is the centre or unwanted(state, i, j) is known;
    an item is dropped without going through its window only when stops(state); the walk ends with nothing pending"""
    n = 0
    if stops:
        for s in W.dropped:
            ck.ob(k + "/spread", stops(s), "a cell is taken off the worklist without going through its window", w)
    r = left_early(I, W.w, lambda s: I.ev(s, teq(mk("len", W.w), C(0))) is True, early)
    ck.ob(k + "/to-the-end", not r, f"walk: {r}", w)
    axes = set()
    for x, s, p in W.pushes:
        i, j = get_field(x, "0"), get_field(x, "1")
        r = window_ok(I, s, i, j, centre, *dims)
        ck.ob(k + "/push-window", not r, f"a cell is put on the worklist outside the window: {r}", w)
        ck.ob(k + "/push-cond", wanted(s, i, j), f"cell ({show(i)},{show(j)}) put on the worklist without the condition being known", w)
        axes.add((p, the_phi(i), the_phi(j)))
        n += 1
    ck.ob(k + "/pushes", n > 0, "nothing is ever put on the worklist", w)
    kept = 0
    for p, i, j in axes:
        if i is None or j is None:
            continue
        for q, s in W.kept:
            if q.args[0] != j.args[0]:
                continue
            kept += 1
            ij_centre = I.ev(s, teq(i, centre[0])) is True and I.ev(s, teq(j, centre[1])) is True
            ck.ob(k + "/skip", ij_centre or unwanted(s, i, j), f"window cell ({show(i)},{show(j)}) is passed over on a path where it should be put on the worklist: "
                  + "; ".join(("" if v else "not ") + show(t)[:80] for t, v in list(s.facts.items())[-6:]), w)
    return n, kept


def le(st, a, b):
    """a <= b between floats, as far as the path knows"""
    from terms import fle, flt
    for t, pol in ((fle(a, b), True), (flt(b, a), False)):
        v = st.facts.get(t)
        if v is not None:
            return v is pol
    return None


def by_phi(I, st, t, pred, seen=None):
    """pred(state, t) holds: known on this path, or known for everything that flows into the loop variable t"""
    if st is not None and pred(st, t):
        return True
    seen = set() if seen is None else seen
    p = the_phi(t)
    if p is None or p in seen and False:
        return False
    r = sub(t, p)
    if p in seen:
        return True
    ins = I.phi_in.get(p)
    if not ins:
        return False
    seen = seen | {p}
    for u, sts in ins.items():
        for s in sts:
            if u is p:
                continue
            if not by_phi(I, s, add(u, r), pred, seen):
                return False
    return True


def tally(I, t, st, grid, cond):
    """t counts the cells of `grid` for which cond(state, i, j) -> True/False/None: list of complaints"""
    bad, seen, work = [], set(), []
    n1 = 0

    def parts(u):
        c, d = lin_parts(u)
        ph = []
        for x, k in d.items():
            if x.op == "phi" and k == 1:
                ph.append(x)
            else:
                bad.append(f"adds {show(x)}")
        return c, ph

    def cells(s):
        out = []
        for f in s.facts:
            for x in subterms(f):
                if x.op == "sel":
                    b, ix = index_chain(x)
                    if b is grid and len(ix) == 2 and ix not in out:
                        out.append(ix)
        return out
    c, ph = parts(t)
    if c:
        bad.append(f"offset {c}")
    work += ph
    for x in ph:
        if Family(I, x).forgets():
            bad.append(Family(I, x).forgets())
    inner = None
    while work:
        p = work.pop()
        if p in seen:
            continue
        seen.add(p)
        for u, sts in I.phi_in.get(p, {}).items():
            c, ph = parts(u)
            work += ph
            for s in sts:
                cs = cells(s)
                known = [(i, j, cond(s, i, j)) for i, j in cs]
                if c == 1:
                    good = [(i, j) for i, j, k in known if k is True]
                    if not good:
                        bad.append("counts a cell without the condition being known")
                        continue
                    n1 += 1
                    inner = p
                    i, j = good[0]
                    r = board_ok(I, s, i, j, [mk("len", grid)], [mk("len", select(grid, i)), mk("len", select(grid, C(0)))])
                    if r:
                        bad.append(r)
                elif c != 0:
                    bad.append(f"adds {c}")
    if not n1:
        bad.append("never counts")
    # the cells passed over
    if inner is not None:
        for u, sts in I.phi_in.get(inner, {}).items():
            if u is inner:
                for s in sts:
                    cs = [(i, j) for i, j in cells(s) if the_phi(j) is not None]
                    if cs and not any(cond(s, i, j) is False for i, j in cs):
                        bad.append("passes over a cell without the condition being refuted")
                    if not cs:
                        bad.append("passes over a cell unseen")
    return bad


# ------------------------------------------------------------------------------------------- counters followed step by step
class NoValue(Exception):
    pass


def ceval(t, env):
    """the value of a term when the atoms in env have the given integers"""
    if t in env:
        return env[t]
    o = t.op
    if o == "c":
        if isinstance(t.args[0], (int, bool)):
            return t.args[0]
        raise NoValue(show(t))
    if o == "lin":
        return t.args[0] + sum(k * ceval(x, env) for x, k in t.args[1])
    if o == "cast":
        v = ceval(t.args[1], env)
        m = {"u8": 2 ** 8, "u16": 2 ** 16, "u32": 2 ** 32, "u64": 2 ** 64, "usize": 2 ** 64}.get(t.args[0])
        return v % m if m else v
    if o == "not":
        return not ceval(t.args[0], env)
    two = {"mul": lambda a, b: a * b, "band": lambda a, b: a & b, "bor": lambda a, b: a | b, "BitXor": lambda a, b: a ^ b,
           "Shl": lambda a, b: a << b if 0 <= b < 64 else None, "Shr": lambda a, b: a >> b if 0 <= b < 64 else None,
           "eq": lambda a, b: a == b, "lt": lambda a, b: a < b, "max": max, "min": min, "and": lambda a, b: a and b, "or": lambda a, b: a or b,
           "div": lambda a, b: a // b if b > 0 and a >= 0 else None, "mod": lambda a, b: a % b if b > 0 and a >= 0 else None}.get(o)
    if two is None or len(t.args) != 2:
        raise NoValue(show(t))
    v = two(ceval(t.args[0], env), ceval(t.args[1], env))
    if v is None:
        raise NoValue(show(t))
    return v


def holds(st, env):
    """False when some fact of the path is refuted by the values in env"""
    for f, v in st.facts.items():
        try:
            if bool(ceval(f, env)) is not v:
                return False
        except NoValue:
            pass
    return True


def arrivals(I, hid):
    return [s for k, ss in I.arrivals.items() if k[:2] == hid for s in ss]


def at(st, ph):
    """the value a path brings to the place a loop variable stands for"""
    v = st.mem.get(ph.args[1])
    if v is None:
        return None
    for x in ph.args[2]:
        v = get_field(v, x)
    return v


def built(I, t):
    """a list of lists made row by row and cell by cell: [(state, row index candidates, column index candidates, element)], or None"""
    empty = mk("veclit")

    def grown(p):
        out = []
        for u, sts in I.phi_in.get(p, {}).items():
            if u is empty:
                continue
            if u.op == "push" and u.args[0] is p:
                out += [(u.args[1], s) for s in sts]
            else:
                return None
        return out or None
    if t.op != "phi":
        return None
    rows = grown(t)
    if not rows:
        return None
    counters = lambda head: [q for q in I.phi_in if q.args[0] == head and set(I.phi_in[q]) == {C(0), add(q, C(1))}]
    res = []
    for r, _ in rows:
        cells = grown(r) if r.op == "phi" and r.args[0] != t.args[0] else None
        if not cells:
            return None
        res += [(s, counters(t.args[0]), counters(r.args[0]), e) for e, s in cells]
    return res


class Nest:
    """a row loop around a cell loop, seen as one loop over the cells: variables by place, entry values, one-cell transitions"""

    def __init__(self, I, inner):
        self.I, self.inner = I, inner
        self.bad = []
        self.vars = {p.args[1:]: p for p in I.phi_in if p.args[0] == inner}
        outs = set()
        self.back, entry = [], []
        for s in arrivals(I, inner):
            moved = [p for p in self.vars.values() if at(s, p) is not None and the_phi(at(s, p)) is p and at(s, p) is not p]
            # a path round the loop carries the loop's own variables
            own = [p for p in self.vars.values() if at(s, p) is not None and mentions(at(s, p), lambda x: x in self.vars.values())]
            (self.back if own or moved else entry).append(s)
        for s in entry:
            for p in self.vars.values():
                v = at(s, p)
                if v is not None and v.op == "phi":
                    outs.add(v.args[0])
        self.outer = outs.pop() if len(outs) == 1 else None
        self.init = {}
        if self.outer is None:
            self.bad.append("the loops are not nested as a row loop around a cell loop")
            return
        for loc, p in self.vars.items():
            q = mk("phi", self.outer, *loc)
            ins = {at(s, p) for s in entry}
            if ins == {q}:
                d = I.phi_in.get(q, {})
                self.init[loc] = {t for t in d if t is not p and t is not q} if p in d else None
            else:
                self.init[loc] = None      # starts anew in every row

    def outer_of(self, loc):
        return mk("phi", self.outer, *loc)
