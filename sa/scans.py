"""What a scan over the 3x3 window of a cell found out."""
from loops import *


def cells2(s, grid):
    """(i, j, grid[i][j]) for everything a path knows about cells of a grid"""
    out, seen = [], set()
    for t in list(s.facts) + list(s.iv):
        for x in subterms(t, seen):
            if x.op == "sel" and x.args[0].op == "sel" and x.args[0].args[0] is grid:
                out.append((x.args[0].args[1], x.args[1], x))
    return out


DOM = range(-11, 22)      # every value a cell of any board can show, and some it cannot


def known(s, x, pred, dom=DOM):
    """is pred(value of x) settled on this path?"""
    c = {pred(v) for v in dom if holds(s, {x: v})}
    return c.pop() if len(c) == 1 else None


def window_cells(I, s, grid, centre, rows, cols, more=()):
    cs = list(cells2(s, grid))
    for t in more:
        for x in subterms(t):
            if x.op == "sel" and x.args[0].op == "sel" and x.args[0].args[0] is grid and all(x is not c for _, _, c in cs):
                cs.append((x.args[0].args[1], x.args[1], x))
    return [(i, j, x) for i, j, x in cs if not (axis_ok(I, s, i, centre[0], rows, ANY) or axis_ok(I, s, j, centre[1], cols, ANY))]


ANY = lambda s: True


class Acc:
    """a variable carried through a scan of the window: a switch thrown by (or a count of) the cells satisfying pred"""

    def __init__(self, I, ph, grid, centre, rows, cols, pred, outside, skip_centre=False):
        self.kind = None
        fam = {}
        work = [ph]
        while work:
            q = work.pop()
            if q.args[0] in fam:
                continue
            if q.args[0] in outside:
                return
            fam[q.args[0]] = q
            for t in I.phi_in.get(q, {}):
                work += [x for x in subterms(t) if x.op == "phi" and x.args[1:] == ph.args[1:]]
        self.fam = set(fam.values())
        consts = set()
        trans = {}
        seen = []
        for h, q in fam.items():
            for s in arrivals(I, h):
                v = at(s, q)
                if v is None:
                    return
                cs = window_cells(I, s, grid, centre, rows, cols, (v,))
                # the loop's own step, or a leave from the cell loop after looking at a cell
                cs = [(i, j, x) for i, j, x in cs if the_phi(j) is not None and the_phi(j).args[0] in fam]
                steps = [y for y in I.phi_in if y.args[0] == h and y.op == "phi" and at(s, y) is add(y, C(1))]
                if skip_centre and any(I.ev(s, teq(i, centre[0])) is True and I.ev(s, teq(j, centre[1])) is True for i, j in [(i, j) for i in I.phi_in for j in steps if i.op == "phi" and i is not j]):
                    if v is not q:
                        return
                    continue
                mine = [x for i, j, x in cs if the_phi(j) in steps or the_phi(j).args[0] != h]
                if not mine:
                    if v.op in ("not", "lt", "eq", "and", "or") and I.ev(s, v) is not None:
                        v = TRUE if I.ev(s, v) else FALSE
                    if is_int(v) or v in (TRUE, FALSE):
                        consts.add(v)
                    elif v not in self.fam:
                        return
                    elif any(the_phi(y).args[0] == h for y in steps) and self.cell_loop(I, h, grid):
                        return       # a cell of the window passed unseen
                    continue
                x = mine[0]
                seen += [(s, i, j) for i, j, y in cs if y is x]
                for b in (False, True, 0, 1, 2, 3):
                    for c in DOM:
                        env = {z: b for z in self.fam}
                        env[x] = c
                        if not holds(s, env):
                            continue
                        try:
                            r = ceval(v, env)
                        except NoValue:
                            return
                        trans.setdefault((type(b).__name__, b, bool(pred(c))), set()).add(r)
        if len(consts) != 1 or not trans:
            return
        c0 = consts.pop()
        self.start = c0.args[0] if c0.op == "c" else c0
        b0 = c0 is TRUE if c0 in (TRUE, FALSE) else c0.args[0]
        if c0 in (TRUE, FALSE):
            hv = not b0
            ok = trans.get(("bool", b0, True)) == {hv} and trans.get(("bool", b0, False)) == {b0}
            ok = ok and trans.get(("bool", hv, True), {hv}) == {hv} and trans.get(("bool", hv, False), {hv}) == {hv}
            if ok:
                self.kind, self.start = "switch", b0
        else:
            ok = all(trans.get(("int", n, True)) == {n + 1} and trans.get(("int", n, False)) == {n} for n in (0, 1, 2, 3))
            if ok:
                self.kind, self.start = "count", b0
            elif b0 in (0, 1) and all(trans.get(("int", n, True), {1 - b0}) == {1 - b0} for n in (0, 1)) and trans.get(("int", b0, True)) and all(trans.get(("int", n, False)) == {n} for n in (0, 1)):
                self.kind, self.start = "switch", b0

        self.rows = []
        if self.kind:
            # every cell of the window is looked at, or the switch is thrown when the rest is not
            for q, i, j in seen:
                if the_phi(i) is None or window_ok(I, q, i, j, centre, rows, cols, lambda z: self.thrown(z, ph)):
                    self.kind = None
                    return
                self.rows.append(window_done(I, i, centre[0], rows))

    def thrown(self, s, ph):
        if self.kind != "switch":
            return False
        v = at(s, ph)
        if v is None:
            return False
        off, on = (self.start, not self.start) if isinstance(self.start, bool) else (self.start, 1 - self.start)
        left = set()
        for b in (off, on):
            env = {z: b for z in self.fam}
            if holds(s, env):
                try:
                    left.add(ceval(v, env))
                except NoValue:
                    return False
        return left == {on}

    def cell_loop(self, I, h, grid):
        return any(the_phi(j) is not None and the_phi(j).args[0] == h for s in arrivals(I, h) for i, j, x in cells2(s, grid))

    def some(self, s, ph):
        """was there a cell satisfying the predicate, according to what the path knows about the variable?"""
        dom = (False, True) if isinstance(self.start, bool) else range(0, 10) if self.kind == "count" else (0, 1)
        left = {v for v in dom if holds(s, {ph: v})}
        if (left == {self.start} or self.kind == "count") and not any(done(s) for done in self.rows):
            return None
        if left == {self.start}:
            return False
        return True if self.start not in left else None


def win_some(I, s, grid, centre, rows, cols, pred, outside=()):
    """does the path know whether some cell of the clipped 3x3 window round `centre` satisfies pred?"""
    if any(known(s, x, pred) is True for _, _, x in window_cells(I, s, grid, centre, rows, cols)):
        return True
    phis = {x for f in s.facts for x in subterms(f) if x.op == "phi" and x.args[0] not in outside} if s.facts else set()
    for ph in phis:
        if not any(mentions(f, lambda y: y is ph) and not (f.op == "lt" and f.args[0] is ph) or f is ph for f in s.facts):
            continue
        a = Acc(I, ph, grid, centre, rows, cols, pred, outside)
        if a.kind:
            r = a.some(s, ph)
            if r is not None:
                return r
    # a scan run to its end that goes on only where the condition is refuted
    for f, v in s.facts.items():
        while f.op == "not":
            f, v = f.args[0], not v
        p = the_phi(f.args[0]) if f.op == "lt" and v is False else None
        if p is None or p.args[0] in outside:
            continue
        n = bad = 0
        for key, sts in I.arrivals.items():
            heads = {the_phi(j) for q in sts for i, j, x in cells2(q, grid) if the_phi(i) is p and the_phi(j) is not None and the_phi(j).args[0] == key[:2]}
            for q in sts:
                for jp in heads:
                    if at(q, jp) is not add(jp, C(1)):
                        continue
                    hit = [(i, j) for i, j, x in cells2(q, grid) if the_phi(i) is p and the_phi(j) is jp and known(q, x, pred) is False]
                    found = lambda z: any(known(z, x, pred) is True for i, j, x in cells2(z, grid) if the_phi(i) is p)
                    n += 1
                    if not any(not window_ok(I, q, i, j, centre, rows, cols, found) and window_done(I, i, centre[0], rows)(s) for i, j in hit):
                        bad += 1
        if n and not bad:
            return False
    return None
