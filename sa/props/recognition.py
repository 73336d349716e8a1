"""Making a recognised board legal."""
from props.chording import *

COVERED = (10, 11)


def a07(ck):
    ck.rule = ("The pass over the board is judged at every cell value and every count of covered neighbours: the count is proved to be that of the cells showing 10 or 11 in the clipped window of the board as it then stands, "
               "every cell is passed exactly once in row order, and only the cell at hand changes, to the specified value.")
    p = prog()
    g = fn_named(p, "utils::legalize_board")
    w = wh(g)
    B = mk("init", "a1")
    I = Interp(p)
    I.split = lambda n: True
    ex = I.analyse(g.name)
    ck.use(I, ex)
    ck.ob("complete", not I.unmodelled, f"not followed: {I.unmodelled}", w)
    rows, cols = [mk("len", B)], lambda i: [mk("len", select(B, z)) for z in (C(0), i)]
    for e in ex:
        t = e.st.mem.get(("P", "a1"), B)
        counts = {}
        G = {q for q in I.phi_in if t.op == "phi" and q.args[1:] == t.args[1:] and q is not t and t in I.phi_in[q] and q in I.phi_in[t]}
        if len(G) == 1:
            G = next(iter(G))
            N = Nest(I, G.args[0])
            dims = lambda i: [mk("len", select(x, z)) for x in (G, t, B) for z in (C(0), i)]
            for s in () if N.bad else N.back:
                for i, j in axes(I, N, s, rows + [mk("len", x) for x in (G, t)], dims):
                    for q in {x for y in [at(s, G)] + list(s.facts) for x in subterms(y) if x.op == "phi" and x not in counts and x in I.phi_in and x is not G and x is not i and x is not j and C(0) in I.phi_in[x]}:
                        def covered(z, a, b):
                            c = select(select(G, a), b)
                            own = I.ev(z, teq(a, i)) and I.ev(z, teq(b, j)) and select(select(G, i), j)
                            can = [[v for v in (*COVERED, 9, 12) if possible(Setting({x: v}), z) and I.ev(z, teq(x, C(v))) is not False] for x in (c, own) if x]
                            return True if not {9, 12} & set(can[0]) else False if any(not set(COVERED) & set(l) for l in can) else None
                        why = window_count(I, q, covered, (i, j), rows + [mk("len", x) for x in (G, t)], dims)
                        if not why:
                            counts[q] = 1
        cells = []
        for v in list(range(-4, 20)) + [-100, 100]:
            for n in range(10) if 1 <= v <= 8 else (0, 4):
                cells.append(((v, n), lambda i, j, old, v=v, n=n: {**{o: v for o in old}, **{q: n for q in counts}}))
        ck.ob("counted", bool(counts), "the covered cells round a number are not counted over its clipped window on the board as it stands", w)

        def want(x):
            v, n = x
            return min(v, n) if 1 <= v <= 8 else 10 if v <= -1 or v >= 13 or v == 9 else v
        cellmap(ck, "cell", I, t, [B], cells, want, rows, cols, w)
