"""Abstract interpreter over the dumped MIR.

Domain: value numbers (terms.py) with a field-sensitive memory, linear-integer normal forms, intervals and
finite variant/constant sets per value number.  Control-flow joins merge states whose memory agrees (facts
are intersected); at loop heads every location whose value number differs is widened to a phi term, so a
fixpoint is reached without executing or unrolling anything.  Calls to functions of the crate are analysed
context-sensitively (so extracting or inlining a helper changes nothing), standard-library calls through
transfer functions, everything else through a havoc of what it can reach mutably.
"""
from terms import *
import re

UNSIGNED = {"u8": 255, "u16": 65535, "u32": 2**32 - 1, "usize": None, "u64": None, "u128": None}
SIGNED_TERMS = set()
SIGNED = ("i8", "i16", "i32", "i64", "i128", "isize")
FLOATS = ("f64", "f32")
STD_VARIANTS = {
    "Option": ["None", "Some"], "Result": ["Ok", "Err"], "ControlFlow": ["Continue", "Break"],
    "Ordering": ["Less", "Equal", "Greater"],
}


class State:
    __slots__ = ("mem", "facts", "iv", "trace", "hp")

    def __init__(self):
        self.mem = {}
        self.facts = {}
        self.iv = {}
        self.trace = ()
        self.hp = {}

    def copy(self):
        s = State()
        s.mem = dict(self.mem)
        s.facts = dict(self.facts)
        s.iv = dict(self.iv)
        s.trace = self.trace
        s.hp = dict(self.hp)
        return s


class Exit:
    def __init__(self, st, val):
        self.st = st
        self.val = val


class Budget(Exception):
    pass


def strip_ty(t):
    t = t.strip()
    while t.startswith("&"):
        t = re.sub(r"^&('[\w_]+ )?(mut )?", "", t)
    return t


def ty_head(t):
    t = strip_ty(t)
    return t.split("<")[0].split("::")[-1]


_LTK = {}


def lt_key(t):
    """lt(a,b) as sign*(vars) + c < 0 with the variable part in a canonical sign"""
    k = _LTK.get(t)
    if k is None:
        d = sub(t.args[0], t.args[1])
        if d.op == "lin":
            c, parts = d.args
            parts = tuple(parts)
            lead = min(parts, key=lambda q: q[0].id)
            if lead[1] < 0:
                k = (frozenset((x, -n) for x, n in parts), -1, c)
            else:
                k = (frozenset(parts), 1, c)
        else:
            k = (None, 0, 0)
        _LTK[t] = k
    return k


def lt_from_facts(st, t):
    """decides lt(a,b) from other comparisons of the same difference"""
    vs, sg, c = lt_key(t)
    if vs is None:
        return None
    for f, v in st.facts.items():
        if f.op != "lt":
            continue
        v2, s2, c2 = lt_key(f)
        if v2 != vs:
            continue
        if s2 == sg:
            if v and c <= c2:
                return True
            if not v and c >= c2:
                return False
        else:
            # fact: -x + c2 < 0 (v) or >= 0 ; question: x + c < 0
            if v and c2 + 1 + c >= 0:
                return False
            if not v and c2 + c < 0:
                return True
    return None


class Interp:
    def __init__(self, prog, opaque=(), handlers=None, maxdepth=9, pure_opaque=True, max_states=300):
        self.p = prog
        self.opaque = opaque if callable(opaque) else (lambda n, s=set(opaque): n in s)
        self.handlers = handlers or {}
        self.maxdepth = maxdepth
        self.max_states = max_states
        self.variants = {}
        self.local_enums = set()
        for n, a in prog.adts.items():
            if a["enum"]:
                self.variants[n.split("::")[-1]] = [v["n"] for v in a["variants"]]
                self.local_enums.add(n.split("::")[-1])
        for k, v in STD_VARIANTS.items():
            self.variants.setdefault(k, v)
        self.ctxs = {}
        self.head = {}
        self.phi_in = {}
        self.arrivals = {}
        self.leaves = {}
        self.changed = False
        self.panics = []
        self.log = []
        self.calls_seen = {}
        self.unmodelled = {}
        self.fn_inlined = set()
        self._live = {}
        self._cfg = {}
        self.steps = 0
        self.promo = {}
        self.loop_items = {}
        self.partition = None
        self.on_call = None
        self.effects = []
        self.on_index = None
        self.split = lambda fname: False
        self.unroll = 0
        self.on_drop = None

    # ------------------------------------------------------------------ memory
    def default(self, root):
        if root[0] == "H":
            return mk("*", root[1])
        if root[0] == "K":
            return root[1]
        if root[0] == "P":
            return mk("init", root[1])
        return mk("undef", str(root))

    def read(self, st, root, path):
        v = st.mem.get(root)
        if v is None:
            v = self.default(root)
        for e in path:
            if e[0] == "F":
                v = get_field(v, e[1])
            elif e[0] == "R":
                v = mk("slice", v, e[1], e[2])
            else:
                v = select(v, e[1])
        return v

    def write(self, st, root, path, val):
        if root[0] == "K":
            return
        old = st.mem.get(root)
        if old is None:
            old = self.default(root)

        def go(v, i):
            if i == len(path):
                return val
            e = path[i]
            if e[0] == "F":
                return set_field(v, e[1], go(get_field(v, e[1]), i + 1))
            if e[0] == "R":
                return mk("splice", v, e[1], e[2], go(mk("slice", v, e[1], e[2]), i + 1))
            return store(v, e[1], go(select(v, e[1]), i + 1))
        st.mem[root] = go(old, 0)

    def place(self, st, fr, p):
        root = ("L", fr, p[0])
        path = []
        pend = None
        for e in p[1]:
            k = e[0]
            if k == "D":
                v = self.read(st, root, path)
                root, path = self.target(st, v)
                path = list(path)
            elif k == "F":
                path.append(("F", f"{pend}.{e[2]}" if pend else e[2]))
                pend = None
            elif k == "V":
                pend = e[2]
            elif k == "I":
                path = list(at_index(path, self.read(st, ("L", fr, e[1]), ())))
            elif k == "C":
                if e[2]:
                    v = self.read(st, root, path)
                    path = list(at_index(path, sub(self.length(st, v), C(e[1]))))
                else:
                    path = list(at_index(path, C(e[1])))
            else:
                path.append(("F", "sub:" + str(e)))
        return root, tuple(path)

    def target(self, st, v):
        """where a pointer value points"""
        if v.op == "&":
            return v.args[0], v.args[1]
        if v.op == "S" and v.args[0] == "Box":
            return self.target(st, get_field(v, "0"))
        if v.op in ("c", "veclit"):
            return ("K", v), ()
        return ("H", v), ()

    def deep(self, st, v):
        n = 0
        while v.op == "&" and n < 8:
            v = self.read(st, v.args[0], v.args[1])
            n += 1
        return v

    def length(self, st, v):
        v = self.deep(st, v)
        while v.op in ("store", "splice"):
            v = v.args[0]
        if v.op == "slice":
            return sub(v.args[2], v.args[1])
        if v.op == "veclit":
            return C(len(v.args))
        if v.op == "from_elem":
            return v.args[1]
        if v.op == "push":
            return add(self.length(st, v.args[0]), C(1))
        if v.op == "c" and isinstance(v.args[0], str):
            return C(len(v.args[0].encode()))
        return mk("len", v)

    # ------------------------------------------------------------------ facts
    def interval(self, st, t):
        lo, hi = bound(t)
        iv = st.iv.get(t)
        if iv and iv[0] == "i":
            if iv[1] is not None and (lo is None or iv[1] > lo):
                lo = iv[1]
            if iv[2] is not None and (hi is None or iv[2] < hi):
                hi = iv[2]
        if t.op == "lin":
            l2 = h2 = t.args[0]
            for x, k in t.args[1]:
                a, b = self.interval(st, x)
                if k < 0:
                    a, b = b, a
                l2 = None if l2 is None or a is None else l2 + k * a
                h2 = None if h2 is None or b is None else h2 + k * b
            if l2 is not None and (lo is None or l2 > lo):
                lo = l2
            if h2 is not None and (hi is None or h2 < hi):
                hi = h2
        elif t.op in ("max", "min"):
            a, b = self.interval(st, t.args[0]), self.interval(st, t.args[1])
            if t.op == "max":
                c = [x for x in (a[0], b[0]) if x is not None]
                if c and (lo is None or max(c) > lo):
                    lo = max(c)
                if a[1] is not None and b[1] is not None and (hi is None or max(a[1], b[1]) < hi):
                    hi = max(a[1], b[1])
            else:
                c = [x for x in (a[1], b[1]) if x is not None]
                if c and (hi is None or min(c) < hi):
                    hi = min(c)
                if a[0] is not None and b[0] is not None and (lo is None or min(a[0], b[0]) > lo):
                    lo = min(a[0], b[0])
        elif t.op == "div" and is_int(t.args[1]) and t.args[1].args[0] > 0:
            a, b = self.interval(st, t.args[0])
            k = t.args[1].args[0]
            if a is not None and a >= 0:
                if lo is None or a // k > lo:
                    lo = a // k
                if b is not None and (hi is None or b // k < hi):
                    hi = b // k
        return lo, hi

    def ev(self, st, t):
        """truth value of a boolean term in a state, or None"""
        if t is TRUE:
            return True
        if t is FALSE:
            return False
        f = st.facts.get(t)
        if f is not None:
            return f
        o = t.op
        if o == "not":
            r = self.ev(st, t.args[0])
            return None if r is None else not r
        if o == "and":
            a, b = self.ev(st, t.args[0]), self.ev(st, t.args[1])
            if a is False or b is False:
                return False
            if a and b:
                return True
            return None
        if o == "or":
            a, b = self.ev(st, t.args[0]), self.ev(st, t.args[1])
            if a or b:
                return True
            if a is False and b is False:
                return False
            return None
        if o == "eq":
            a, b = t.args
            if b.op == "c":
                iv = st.iv.get(a)
                if iv is not None:
                    if iv[0] == "k":  # non-integer constants: ("k", is, neq)
                        if iv[1] is not None:
                            return iv[1] is b
                        if b in iv[2]:
                            return False
                    elif is_int(b) and b.args[0] in iv[3]:
                        return False
                if is_int(b):
                    lo, hi = self.interval(st, a)
                    if lo is not None and b.args[0] < lo or hi is not None and b.args[0] > hi:
                        return False
                    if lo is not None and lo == hi:
                        return lo == b.args[0]
            # lt facts either way
            if st.facts.get(tlt(a, b)) or st.facts.get(tlt(b, a)):
                return False
            if a.op == "S" or b.op == "S":
                return None
            return None
        if o == "lt":
            a, b = t.args
            al, ah = self.interval(st, a)
            bl, bh = self.interval(st, b)
            if ah is not None and bl is not None and ah < bl:
                return True
            if al is not None and bh is not None and al >= bh:
                return False
            e = st.facts.get(teq(a, b))
            if e:
                return False
            # a<b known from b<a
            if st.facts.get(tlt(b, a)):
                return False
            return lt_from_facts(st, t)
        if o == "isv":
            vs = st.iv.get(t.args[0])
            if vs is not None and vs[0] == "v":
                if t.args[1] not in vs[1]:
                    return False
                if len(vs[1]) == 1:
                    return True
            return None
        if o == "contains" and False:
            return None
        return None

    def assume(self, st, t, val):
        """refine a copy of st with t == val; None if contradictory"""
        cur = self.ev(st, t)
        if cur is not None:
            return st if cur == val else None
        o = t.op
        if o == "not":
            return self.assume(st, t.args[0], not val)
        if (o == "and" and val) or (o == "or" and not val):
            s = self.assume(st, t.args[0], val)
            return None if s is None else self.assume(s, t.args[1], val)
        if o in ("and", "or"):
            # and == False / or == True: if one side is decided, the other follows
            for x, y in ((t.args[0], t.args[1]), (t.args[1], t.args[0])):
                e = self.ev(st, x)
                if e is not None and e != val:
                    return self.assume(st, y, val)
        s = st.copy()
        s.facts[t] = val
        if o == "eq":
            a, b = t.args
            if b.op == "c":
                if is_int(b):
                    lo, hi, ne = self._iv(s, a)
                    k = b.args[0]
                    if val:
                        lo = hi = k
                    else:
                        ne = ne | {k}
                        if lo == k:
                            lo += 1
                        if hi == k:
                            hi -= 1
                    if lo is not None and hi is not None and lo > hi:
                        return None
                    s.iv[a] = ("i", lo, hi, ne)
                    self._propagate(s, a)
                else:
                    iv = s.iv.get(a)
                    ne = iv[2] if iv and iv[0] == "k" else frozenset()
                    s.iv[a] = ("k", b, ne) if val else ("k", None, ne | {b})
        elif o == "lt":
            a, b = t.args
            if is_int(b):
                lo, hi, ne = self._iv(s, a)
                k = b.args[0]
                if val:
                    hi = k - 1 if hi is None else min(hi, k - 1)
                else:
                    lo = k if lo is None else max(lo, k)
                while lo is not None and lo in ne:
                    lo += 1
                while hi is not None and hi in ne:
                    hi -= 1
                if lo is not None and hi is not None and lo > hi:
                    return None
                s.iv[a] = ("i", lo, hi, ne)
                self._propagate(s, a)
        elif o == "isv":
            v, n = t.args
            vs = s.iv.get(v)
            cur = set(vs[1]) if vs and vs[0] == "v" else None
            if val:
                if cur is not None and n not in cur:
                    return None
                s.iv[v] = ("v", frozenset([n]))
            else:
                if cur is None:
                    cur = self.all_variants_of(v, n)
                if cur is not None:
                    cur = cur - {n}
                    if not cur:
                        return None
                    s.iv[v] = ("v", frozenset(cur))
        return s

    def all_variants_of(self, v, n):
        c = [vs for vs in self.variants.values() if n in vs]
        if len(c) == 1:
            return set(c[0])
        return None

    def _iv(self, s, a):
        iv = s.iv.get(a)
        lo, hi = self.interval(s, a)
        return lo, hi, (iv[3] if iv and iv[0] == "i" else frozenset())

    def _propagate(self, s, a):
        # a = k*x + c with one variable: refine x as well
        if a.op == "lin" and len(a.args[1]) == 1:
            (x, k), = a.args[1]
            if k in (1, -1):
                _, lo, hi, ne = s.iv[a]
                c = a.args[0]
                xl, xh, xn = self._iv(s, x)
                if k == 1:
                    nl = None if lo is None else lo - c
                    nh = None if hi is None else hi - c
                else:
                    nl = None if hi is None else c - hi
                    nh = None if lo is None else c - lo
                if nl is not None and (xl is None or nl > xl):
                    xl = nl
                if nh is not None and (xh is None or nh < xh):
                    xh = nh
                s.iv[x] = ("i", xl, xh, xn)

    def const_of(self, st, t):
        """t, or the constant it is known to equal in st"""
        if t.op == "c":
            return t
        iv = st.iv.get(t)
        if iv:
            if iv[0] == "k" and iv[1] is not None:
                return iv[1]
            if iv[0] == "i" and iv[1] is not None and iv[1] == iv[2]:
                return C(iv[1])
        if t.op in ("lin",):
            lo, hi = self.interval(st, t)
            if lo is not None and lo == hi:
                return C(lo)
        return t

    def variant_of(self, st, v):
        if v.op == "S":
            if v.args[1] is not None:
                return v.args[1]
            if v.args[2] is not None:
                return self.variant_of(st, v.args[2])
        iv = st.iv.get(v)
        if iv and iv[0] == "v" and len(iv[1]) == 1:
            return next(iter(iv[1]))
        return None

    # ------------------------------------------------------------------ cfg helpers
    def cfg(self, f):
        c = self._cfg.get(f.name)
        if c:
            return c
        n = len(f.blocks)
        succ = []
        for b in f.blocks:
            t = b["t"]
            k = t["k"]
            if k in ("goto", "drop", "assert"):
                s = [t["t"]]
            elif k == "switch":
                s = [x[1] for x in t["c"]] + [t["e"]]
            elif k == "call":
                s = [t["t"]] if t["t"] is not None else []
            else:
                s = []
            succ.append(s)
        # dfs: rpo and back edges
        color = [0] * n
        order = []
        back = set()
        stack = [(0, iter(succ[0]))]
        color[0] = 1
        while stack:
            u, it = stack[-1]
            for v in it:
                if color[v] == 1:
                    back.add((u, v))
                elif color[v] == 0:
                    color[v] = 1
                    stack.append((v, iter(succ[v])))
                    break
            else:
                color[u] = 2
                order.append(u)
                stack.pop()
        order.reverse()
        preds = [[] for _ in range(n)]
        for u in order:
            for v in succ[u]:
                preds[v].append(u)
        loops = {}
        for (u, h) in back:
            body = {h, u}
            work = [u]
            while work:
                x = work.pop()
                if x == h:
                    continue
                for q in preds[x]:
                    if q not in body:
                        body.add(q)
                        work.append(q)
            loops.setdefault(h, set()).update(body)
        # liveness
        use = [set() for _ in range(n)]
        df = [set() for _ in range(n)]
        for i in order:
            u, d = use[i], df[i]

            def rd_place(p):
                if p[0] not in d:
                    u.add(p[0])
                for e in p[1]:
                    if e[0] == "I" and e[1] not in d:
                        u.add(e[1])

            def rd(o):
                if o["k"] in ("copy", "move"):
                    rd_place(o["p"])

            def wr(p):
                if p[1]:
                    rd_place(p)
                else:
                    d.add(p[0])
            b = f.blocks[i]
            for s in b["s"]:
                if s["k"] == "=":
                    r = s["r"]
                    for kk in ("o", "a", "b"):
                        if kk in r:
                            rd(r[kk])
                    if "p" in r:
                        rd_place(r["p"])
                    for o in r.get("ops", ()):
                        rd(o)
                    wr(s["p"])
                elif s["k"] == "setd":
                    rd_place(s["p"])
            t = b["t"]
            if "o" in t:
                rd(t["o"])
            if t["k"] == "drop":
                pass
            if t["k"] == "call":
                rd(t["f"])
                for o in t["a"]:
                    rd(o)
                wr(t["d"])
            if t["k"] == "assert":
                for o in t["m"][1:]:
                    if isinstance(o, dict):
                        rd(o)
            if t["k"] == "ret":
                if 0 not in d:
                    u.add(0)
        live = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for i in reversed(order):
                out = set()
                for s in succ[i]:
                    out |= live[s]
                nw = use[i] | (out - df[i])
                if nw != live[i]:
                    live[i] = nw
                    ch = True
        idom = None
        c = dict(succ=succ, order=order, back=back, loops=loops, live=live, preds=preds)
        self._cfg[f.name] = c
        return c

    # ------------------------------------------------------------------ joins
    def gc(self, st, fr, live, parents):
        keep = {}
        work = []

        def refs(v):
            for x in subterms(v):
                if x.op == "&" and x.args[0] in st.mem and x.args[0] not in keep:
                    work.append(x.args[0])
        for r, v in st.mem.items():
            if r[0] == "L":
                if r[1] == fr:
                    if r[2] in live:
                        work.append(r)
                elif r[1] in parents:
                    work.append(r)
            elif r[0] == "I":
                if r[1] == fr or r[1] in parents:
                    work.append(r)
            elif r[0] in ("P",):
                work.append(r)
        while work:
            r = work.pop()
            if r in keep:
                continue
            v = st.mem.get(r)
            if v is None:
                continue
            keep[r] = v
            refs(v)
        for r, v in st.mem.items():
            if r[0] == "H" and r not in keep:
                keep[r] = v
        st.mem = keep

    def mkey(self, st):
        return (frozenset((r, v.id) for r, v in st.mem.items()), st.trace, tuple(sorted(st.hp.items(), key=str)))

    def merge_facts(self, a, b):
        """facts true in both (into a new State sharing a's memory)"""
        s = a.copy()
        if len(b.facts) < len(a.facts):
            small, big = b, a
        else:
            small, big = a, b
        s.facts = {t: v for t, v in small.facts.items() if big.facts.get(t) == v or (t not in big.facts and self.ev(big, t) == v)}
        for t, v in big.facts.items():
            if t not in s.facts and t not in small.facts and self.ev(small, t) == v:
                s.facts[t] = v
        iv = {}
        for t, x in a.iv.items():
            y = b.iv.get(t)
            if x[0] == "i":
                lo, hi = self.interval(b, t)
                yn = y[3] if y and y[0] == "i" else frozenset()
                nl = None if x[1] is None or lo is None else min(x[1], lo)
                nh = None if x[2] is None or hi is None else max(x[2], hi)
                ne = frozenset(k for k in x[3] if k in yn or (lo is not None and k < lo) or (hi is not None and k > hi)) | \
                    frozenset(k for k in yn if (x[1] is not None and k < x[1]) or (x[2] is not None and k > x[2]))
                if nl is not None or nh is not None or ne:
                    iv[t] = ("i", nl, nh, ne)
            elif y is not None and y[0] == x[0]:
                if x[0] == "v":
                    iv[t] = ("v", x[1] | y[1])
                else:
                    if x[1] is not None and x[1] is y[1]:
                        iv[t] = x
                    else:
                        nx = x[2] if x[1] is None else None
                        ny = y[2] if y[1] is None else None
                        if nx is not None and ny is not None:
                            iv[t] = ("k", None, nx & ny)
                        elif nx is not None:
                            iv[t] = ("k", None, nx - {y[1]})
                        elif ny is not None:
                            iv[t] = ("k", None, ny - {x[1]})
        s.iv = iv
        return s

    def joinv(self, a, b, loc, b_state):
        if a.op == "phi" and a.args == loc:
            self.phi_in.setdefault(a, {}).setdefault(b, []).append(b_state)
            return a
        if a is b:
            if a.op == "S":
                # loop variables inside that come round as they are
                for k, v in a.args[3]:
                    if v.op == "S" or v.op == "phi":
                        self.joinv(v, v, loc[:-1] + (loc[-1] + (k,),), b_state)
            return a
        sa, sb = a.op == "S", b.op == "S"
        if sa and sb and a.args[0] == b.args[0] and a.args[1] == b.args[1] and (a.args[2] is b.args[2]):
            keys = {k for k, _ in a.args[3]} | {k for k, _ in b.args[3]}
            r = a
            for k in sorted(keys):
                r = set_field(r, k, self.joinv(get_field(a, k), get_field(b, k), loc[:-1] + (loc[-1] + (k,),), b_state))
            return r
        if sb and b.args[2] is not None and (b.args[2] is a):
            r = b
            for k, v in b.args[3]:
                r = set_field(r, k, self.joinv(get_field(a, k), v, loc[:-1] + (loc[-1] + (k,),), b_state))
            return r
        if sa and a.args[2] is not None and (a.args[2] is b or (sb and b.args[2] is a.args[2])):
            r = a
            keys = {k for k, _ in a.args[3]} | ({k for k, _ in b.args[3]} if sb else set())
            for k in sorted(keys):
                r = set_field(r, k, self.joinv(get_field(a, k), get_field(b, k), loc[:-1] + (loc[-1] + (k,),), b_state))
            return r
        ph = mk("phi", *loc)
        self.changed = True
        d = self.phi_in.setdefault(ph, {})
        d.setdefault(a, []).append(None)
        d.setdefault(b, []).append(b_state)
        return ph

    def head_arrive(self, key, st):
        """join st into the stored state of loop head `key`; returns the stored state"""
        ctx = key
        old = self.head.get(key)
        orig = st
        st = st.copy()
        self.drop_phi_facts(st, key)
        self.arrivals.setdefault(key, []).append(orig)
        if old is None:
            s = st.copy()
            self.head[key] = s
            self.changed = True
            return s
        s = old.copy()
        for r in list(s.mem):
            if r not in st.mem:
                if r[0] == "H" or r[0] == "P":
                    st.mem[r] = self.default(r)
                else:
                    del s.mem[r]
                    continue
            s.mem[r] = self.joinv(s.mem[r], st.mem[r], (key[:2], r, ()), orig)
        for r in st.mem:
            if r not in s.mem and r[0] in ("H", "P"):
                s.mem[r] = self.joinv(self.default(r), st.mem[r], (key[:2], r, ()), orig)
        # keep facts of both
        if key in self.fresh:
            # second phase: locations are stable, start again from the strongest facts
            self.fresh.discard(key)
            s.facts, s.iv = dict(st.facts), dict(st.iv)
        else:
            m = self.merge_facts(s, st)
            s.facts, s.iv = m.facts, m.iv
        if s.trace != st.trace:
            s.trace = self.join_trace(s.trace, st.trace)
        if s.trace != old.trace or set(s.facts) != set(old.facts) or s.iv != old.iv or s.mem != old.mem:
            self.changed = True
        self.head[key] = s
        return s

    def join_trace(self, a, b):
        n = 0
        while n < len(a) and n < len(b) and a[n] == b[n]:
            n += 1
        ev = set()
        for e in a[n:] + b[n:]:
            if e[0] == "loop":
                ev |= set(e[1])
            else:
                ev.add(e)
        return a[:n] + (("loop", frozenset(ev)),)

    def drop_phi_facts(self, st, key):
        bad = lambda x: x.op == "phi" and x.args[0] == key[:2]
        memo = {}

        def m(t):
            r = memo.get(t)
            if r is None:
                r = mentions(t, bad)
                memo[t] = r
            return r
        st.facts = {t: v for t, v in st.facts.items() if not m(t)}
        st.iv = {t: v for t, v in st.iv.items() if not m(t)}

    # ------------------------------------------------------------------ running
    def ctx(self, parent, what):
        k = (parent, what)
        c = self.ctxs.get(k)
        if c is None:
            c = len(self.ctxs) + 1
            self.ctxs[k] = c
        return c

    def fixpoint(self, run):
        """run() analyses the entry once; repeat until no loop-head state changes"""
        phase = 1
        tried = {}
        self.fresh = set()
        for rnd in range(80):
            self.changed = False
            self.phi_in = {}
            self.arrivals = {}
            self.leaves = {}
            self.panics = []
            self.log = []
            self.effects = []
            self.loop_items = {}
            res = run()
            if not self.changed:
                red = self.redundant_phis(tried)
                if not red and (phase == 2 or not self.head):
                    return res
                if red:
                    # phis only left over from early rounds: every arrival brings one and the same value
                    for q in red:
                        tried[q] = tried.get(q, 0) + 1
                    memo = {}
                    for k, h in self.head.items():
                        h = h.copy()
                        h.mem = {r: subst(v, red, memo) for r, v in h.mem.items()}
                        self.head[k] = h
                # facts at loop heads were intersected with those of early, less general rounds: drop them and
                # descend again from the facts of the stable locations (greatest fixpoint of the facts)
                phase = 2
                self.fresh = set(self.head)
        raise Budget("no fixpoint in 60 rounds")

    def redundant_phis(self, tried):
        red = {}
        for p, d in self.phi_in.items():
            if tried.get(p, 0) >= 3:
                continue
            xs = [t for t in d if t is not p]
            if len(xs) == 1 and not mentions(xs[0], lambda t: t is p):
                red[p] = xs[0]
        # resolve chains, drop cycles
        out = {}
        for p in red:
            seen = {p}
            t = red[p]
            while t in red and t not in seen:
                seen.add(t)
                t = red[t]
            if t not in seen and not mentions(t, lambda x: x in red):
                out[p] = t
        return out

    def analyse(self, fname, setup=None, args=None):
        """exit states of a function from an entry state built by setup(state, interp)"""
        f = self.p.fns[fname]

        def run():
            st = State()
            vals = []
            for i in range(f.argc):
                ty = f.ty(i + 1)
                nm = f.locals[i + 1]["n"] or f"arg{i+1}"
                nm = "self" if nm == "self" else f"a{i+1}"
                if args and i < len(args) and args[i] is not None:
                    vals.append(args[i])
                elif ty.startswith("&") and strip_ty(ty) != "str":
                    vals.append(mk("&", ("P", nm), ()))
                else:
                    vals.append(mk("init", nm))
                    self.note_ty(vals[-1], ty)
            if setup:
                st = setup(st, self) or st
            return self.call_fn(st, f, vals, 0, (), 0)
        return self.fixpoint(run)

    def note_ty(self, v, ty):
        if ty in UNSIGNED and v.op not in ("c", "lin", "S") and v not in BOUND and v not in SIGNED_TERMS:
            BOUND[v] = (0, UNSIGNED[ty])

    def call_fn(self, st, f, vals, pctx, parents, depth, tag=None):
        fr = self.ctx(pctx, tag if tag is not None else f.name)
        st = st.copy()
        for r in [r for r in st.mem if r[0] in ("L", "B") and r[1] == fr]:
            del st.mem[r]
        for i, v in enumerate(vals):
            st.mem[("L", fr, i + 1)] = v
        self.fn_inlined.add(f.name)
        cfg = self.cfg(f)
        pend = {0: [st]}
        exits = []
        par = parents + (fr,)
        stack_key = f.name
        rank = {b: i for i, b in enumerate(cfg["order"])}
        while pend:
            bi = min(pend, key=rank.get)
            sts = pend.pop(bi)
            if bi in cfg["loops"]:
                groups = {}
                todo, sts = sts, []
                for s in todo:
                    self.gc(s, fr, cfg["live"][bi], parents)
                    h = s.hp.get((fr, bi))
                    if h is not None and h[0] == "unroll" or h is None and self.unroll and self.short_loop(s, fr, f, cfg, bi):
                        # a few turns, known in number: one after the other, without joining
                        k = h[1] + 1 if h is not None else 0
                        if k > self.unroll + 1:
                            raise Budget("loop taken to be short is not")
                        s = s.copy()
                        s.hp[(fr, bi)] = ("unroll", k)
                        sts.append(s)
                        continue
                    part = (s.trace, self.partition(s) if self.partition else None)
                    key = ((fr, bi), part, tuple(sorted((k, v) for k, v in s.hp.items() if k != (fr, bi))).__repr__())
                    key = ((fr, bi)[0], (fr, bi)[1], part, key[2])
                    groups.setdefault(key, []).append(s)
                for key, ss in groups.items():
                    for s in ss:
                        out = self.head_arrive(key, s)
                    out = out.copy()
                    out.hp[(fr, bi)] = key
                    sts.append(out)
            else:
                if len(cfg["preds"][bi]) > 1 and len(sts) > 1:
                    sts = self.merge(sts, fr, cfg["live"][bi], parents, self.split(f.name))
            for s in sts:
                self.steps += 1
                for (tb, ns) in self.block(s, f, fr, bi, par, depth):
                    if tb == "ret":
                        exits.append(ns)
                        continue
                    # leaving loops
                    for h in [h for h in ns.hp if h[0] == fr]:
                        if tb not in cfg["loops"].get(h[1], ()):
                            ns.hp.pop(h)
                            self.leaves.setdefault(h, []).append(ns)
                    if (bi, tb) in cfg["back"] or tb == bi:
                        self.gc(ns, fr, cfg["live"][tb], parents)
                        key = ns.hp.get((fr, tb))
                        if key is None:
                            continue
                        if key[0] == "unroll":
                            pend.setdefault(tb, []).append(ns)
                            continue
                        self.head_arrive(key, ns)
                    else:
                        pend.setdefault(tb, []).append(ns)
        out = []
        for s in exits:
            v = s.mem.get(("L", fr, 0), mk("undef", "ret"))
            out.append(Exit(s, v))
        # drop the frame, keep what is still referenced
        for e in out:
            s = e.st
            s.mem[("L", -1, 0)] = e.val
            self.gc(s, fr, set(), parents + (-1,))
            e.val = s.mem.pop(("L", -1, 0))
            for h in [h for h in s.hp if h[0] == fr]:
                s.hp.pop(h)
        # merge identical exits
        res = {}
        for e in out:
            k = (self.mkey(e.st), e.val.id)
            if self.split(f.name):
                k = (k, frozenset((t.id, v) for t, v in e.st.facts.items()))
            if k in res:
                res[k] = Exit(self.merge_facts(res[k].st, e.st), e.val)
            else:
                res[k] = e
        return list(res.values())

    def turns_left(self, it):
        """how many elements an iterator still has, when that is a known small number"""
        if it.op != "S":
            return None
        k = it.args[0]
        lo, hi = ("start", "end") if k == "Range" else ("pos", "end") if k in ("SliceIter", "VecIter") else (None, None)
        if lo:
            a, b = get_field(it, lo), get_field(it, hi)
            if a.op == "c" and b.op == "c":
                return max(0, b.args[0] - a.args[0])
            return None
        if k in ("Rev", "Enumerate", "Map", "Cloned"):
            return self.turns_left(get_field(it, "it"))
        return None

    def short_loop(self, st, fr, f, cfg, bi):
        # while i < n, i and n known numbers
        t = f.blocks[bi]["t"]
        if t["k"] == "switch":
            d = {}
            for s in f.blocks[bi]["s"]:
                if s["k"] == "=" and not s["p"][1]:
                    d[s["p"][0]] = s["r"]

            def known(o):
                if o["k"] not in ("copy", "move"):
                    v = self.operand(st, fr, f, o)
                elif o["p"][1]:
                    return None
                elif o["p"][0] in d and d[o["p"][0]]["k"] == "use":
                    return known(d[o["p"][0]]["o"])
                else:
                    v = st.mem.get(("L", fr, o["p"][0]))
                return v.args[0] if v is not None and v.op == "c" and type(v.args[0]) is int else None
            o = t["o"]
            r = d.get(o["p"][0]) if o["k"] in ("copy", "move") and not o["p"][1] else None
            if r and r["k"] == "bin" and r["op"] in ("Lt", "Le", "Gt", "Ge", "Ne"):
                a, b = known(r["a"]), known(r["b"])
                if a is not None and b is not None and abs(a - b) < self.unroll:
                    return True
        for b in cfg["loops"][bi]:
            for s in f.blocks[b]["s"]:
                if s["k"] == "=" and s["r"]["k"] == "ref" and s["r"]["mut"] and not s["r"]["p"][1]:
                    v = st.mem.get(("L", fr, s["r"]["p"][0]))
                    n = self.turns_left(v) if v is not None else None
                    if n is not None and n <= self.unroll:
                        return True
        return False

    def merge(self, sts, fr, live, parents, split=False):
        res = {}
        for s in sts:
            self.gc(s, fr, live, parents)
            k = self.mkey(s)
            if split:
                k = (k, frozenset((t.id, v) for t, v in s.facts.items()))
            if k in res:
                res[k] = self.merge_facts(res[k], s)
            else:
                res[k] = s
        out = list(res.values())
        if len(out) > self.max_states:
            raise Budget(f"more than {self.max_states} states")
        return out

    def block(self, st, f, fr, bi, par, depth, at=0):
        b = f.blocks[bi]
        st = st.copy()
        for n, s in enumerate(b["s"][at:], at):
            if s["k"] == "=":
                r = s["r"]
                if r["k"] == "cast" and r["from"] == "bool" and not s["p"][1]:
                    # a truth value made a number: 1 on the paths where it holds, 0 on the others
                    c = self.operand(st, fr, f, r["o"])
                    out = []
                    for s2, yes in self.fork(st, c):
                        s2 = s2.copy()
                        self.write(s2, *self.place(s2, fr, s["p"]), C(1 if yes else 0))
                        out += self.block(s2, f, fr, bi, par, depth, n + 1)
                    return out
                v = self.rvalue(st, fr, f, s["r"])
                r, pth = self.place(st, fr, s["p"])
                if not s["p"][1]:
                    self.note_ty(v, f.ty(s["p"][0]))
                self.write(st, r, pth, v)
        t = b["t"]
        k = t["k"]
        if k in ("goto", "drop"):
            if k == "drop" and self.on_drop is not None:
                self.on_drop(st, f, t)
            return [(t["t"], st)]
        if k == "ret":
            return [("ret", st)]
        if k == "assert":
            c = self.operand(st, fr, f, t["o"])
            self.on_assert(st, f, fr, b, t)
            s = self.assume(st, c, t["exp"]) if c.op not in ("undef",) else st
            return [(t["t"], s)] if s is not None else []
        if k == "switch":
            return self.switch(st, f, fr, t)
        if k == "call":
            return self.call(st, f, fr, bi, b, t, par, depth)
        return []

    def on_assert(self, st, f, fr, b, t):
        pass

    def switch(self, st, f, fr, t):
        v = self.operand(st, fr, f, t["o"])
        out = []
        cur = st
        if v.op == "discr":
            x, head = v.args
            names = self.variants.get(head)
            vn = self.variant_of(st, x)
            if names is None:
                atoms = [(mk("eq", v, C(c)), tb) for c, tb in t["c"]]
            else:
                if x not in cur.iv and x.op != "S":
                    cur = cur.copy()
                    cur.iv[x] = ("v", frozenset(names))
                atoms = []
                for c, tb in t["c"]:
                    n = names[c + 1] if head == "Ordering" else names[c]
                    if vn is not None:
                        atoms.append((TRUE if vn == n else FALSE, tb))
                    else:
                        atoms.append((mk("isv", x, n), tb))
        elif t["ty"] == "bool":
            atoms = [(tnot(v) if c == 0 else v, tb) for c, tb in t["c"]]
        elif t["ty"] == "char":
            atoms = [(teq(v, C(chr(int(c)))), tb) for c, tb in t["c"]]
        else:
            atoms = [(teq(v, C(int(c))), tb) for c, tb in t["c"]]
        for a, tb in atoms:
            if cur is None:
                break
            s = self.assume(cur, a, True)
            if s is not None:
                out.append((tb, s.copy()))
            cur = self.assume(cur, a, False)
        if cur is not None and f.blocks[t["e"]]["t"]["k"] != "unreachable":
            out.append((t["e"], cur.copy()))
        return out

    # ------------------------------------------------------------------ operands, rvalues
    def operand(self, st, fr, f, o):
        if o["k"] in ("copy", "move"):
            r, p = self.place(st, fr, o["p"])
            return self.read(st, r, p)
        if o["k"] == "fn":
            return mk("fn", o.get("resolved", o["path"]))
        return self.const(st, o["v"], o)

    def const(self, st, v, o=None):
        k = v[0]
        if k in ("int", "bool", "str", "char"):
            return C(v[1])
        if k == "float":
            return C(float(v[1]))
        if k == "unit":
            return UNIT
        if k == "bytes":
            return mk("veclit", *[C(x) for x in v[1]])
        if k == "array":
            return mk("veclit", *[self.const(st, x) for x in v[1]])
        if k == "tuple":
            return S("tuple", None, {str(i): self.const(st, x) for i, x in enumerate(v[1])})
        if k == "ref":
            return mk("&", ("K", self.const(st, v[1])), ())
        if k == "adt":
            a = self.p.adts.get(v[1])
            vn = v[3]
            isenum = v[1].split("::")[-1] != vn
            fs = {}
            if a:
                for fd, x in zip(a["variants"][v[2]]["fields"], v[4]):
                    fs[(f"{vn}." if isenum else "") + fd["n"]] = self.const(st, x)
            else:
                for i, x in enumerate(v[4]):
                    fs[(f"{vn}." if isenum else "") + str(i)] = self.const(st, x)
            return S(v[1].split("::")[-1], vn if isenum else None, fs)
        if k == "promoted":
            return self.promoted(st, v[1])
        if k == "static":
            return mk("&", ("P", "static:" + v[1]), ())
        return mk("const", str(v[1]) if len(v) > 1 else k, o.get("named", "") if o else "")

    def promoted(self, st, name):
        f = self.p.fns.get(name)
        if f is None:
            return mk("const", name)
        fr = self.ctx(0, "promoted:" + name)
        tmp = State()
        for b in [f.blocks[i] for i in self.cfg(f)["order"]]:
            for s in b["s"]:
                if s["k"] == "=":
                    v = self.rvalue(tmp, fr, f, s["r"])
                    r, pth = self.place(tmp, fr, s["p"])
                    self.write(tmp, r, pth, v)
            t = b["t"]
            if t["k"] == "call" and t["f"].get("path") == "std::ops::RangeInclusive::<Idx>::new":
                import models
                r, pth = self.place(tmp, fr, t["d"])
                self.write(tmp, r, pth, models.ri_new(self, tmp, None, [self.operand(tmp, fr, f, o) for o in t["a"]])[0][1])
        v = tmp.mem.get(("L", fr, 0), mk("undef", name))

        def close(v):
            # turn references to promoted locals into constant roots
            if v.op == "&" and v.args[0][0] == "L":
                return mk("&", ("K", close(self.read(tmp, v.args[0], v.args[1]))), ())
            if v.op == "S":
                return mk("S", v.args[0], v.args[1], v.args[2], tuple((k, close(x)) for k, x in v.args[3]))
            if v.op == "veclit":
                return mk("veclit", *[close(x) for x in v.args])
            return v
        return close(v)

    def rvalue(self, st, fr, f, r):
        k = r["k"]
        if k == "use":
            return self.operand(st, fr, f, r["o"])
        if k in ("ref", "rawptr"):
            root, path = self.place(st, fr, r["p"])
            if root[0] == "K" and not path and root[1].op == "c":
                return root[1]
            return mk("&", root, path)
        if k == "bin":
            return self.binop(st, r["op"], self.operand(st, fr, f, r["a"]), self.operand(st, fr, f, r["b"]), r["ty"])
        if k == "un":
            v = self.operand(st, fr, f, r["a"])
            if r["op"] == "Not":
                if r["ty"] == "bool":
                    return tnot(v)
                return mk("bnot", r["ty"], v)
            if r["op"] == "Neg":
                if r["ty"] in FLOATS:
                    return C(-v.args[0]) if is_c(v) else mk("fneg", v)
                return neg(v)
            if r["op"] == "PtrMetadata":
                return self.length(st, v)
            return mk("un", r["op"], v)
        if k == "cast":
            return self.cast(st, self.operand(st, fr, f, r["o"]), r["from"], r["ty"], r["ck"])
        if k == "discr":
            root, path = self.place(st, fr, r["p"])
            v = self.read(st, root, path)
            head = ty_head(r["ty"])
            names = self.variants.get(head)
            vn = self.variant_of(st, v)
            if vn is not None and names and vn in names:
                i = names.index(vn)
                return C(i - 1 if head == "Ordering" else i)
            return mk("discr", v, head)
        if k == "agg":
            ops = [self.operand(st, fr, f, o) for o in r["ops"]]
            if r["ak"] == "adt":
                head = r["adt"].split("::")[-1]
                isenum = head in self.variants and r["vn"] in self.variants[head] and head != r["vn"] or head != r["vn"]
                return S(head, r["vn"] if isenum else None,
                         {(f"{r['vn']}." if isenum else "") + n: o for n, o in zip(r["fields"], ops)})
            if r["ak"] == "tuple":
                return S("tuple", None, {str(i): o for i, o in enumerate(ops)}) if ops else UNIT
            if r["ak"] == "array":
                return mk("veclit", *ops)
            if r["ak"] == "closure":
                return S("clos:" + r["def"], None, {str(i): o for i, o in enumerate(ops)})
            return mk("agg", *ops)
        if k == "repeat":
            return mk("from_elem", self.operand(st, fr, f, r["o"]), C(r["n"]) if r["n"] is not None else mk("constn"))
        return mk("other", r.get("d", ""))

    def binop(self, st, op, a, b, ty):
        if op.endswith("WithOverflow"):
            return S("tuple", None, {"0": self.binop(st, op[:-12], a, b, ty), "1": FALSE})
        if op.endswith("Unchecked"):
            op = op[:-9]
        if op in ("Offset",):
            return mk("offset", a, b)
        if ty in FLOATS:
            if op in ("Add", "Mul"):
                if is_c(a) and is_c(b):
                    return C(a.args[0] + b.args[0]) if op == "Add" else C(a.args[0] * b.args[0])
                x, y = sorted((a, b))
                return mk("f" + op.lower(), x, y)
            if op in ("Sub", "Div", "Rem"):
                return mk("f" + op.lower(), a, b)
            if op == "Lt":
                return flt(a, b)
            if op == "Gt":
                return flt(b, a)
            if op == "Le":
                return fle(a, b)
            if op == "Ge":
                return fle(b, a)
            if op in ("Eq", "Ne"):
                r = teq(a, b)
                return r if op == "Eq" else tnot(r)
        if op == "Add":
            return add(a, b)
        if op == "Sub":
            return sub(a, b)
        if op == "Mul":
            return mul(a, b)
        if op in ("Div", "Rem"):
            if ty in SIGNED and not (is_int(a) and is_int(b)):
                l = self.interval(st, a)[0]
                if l is None or l < 0:      # truncating: the result takes the sign of the dividend
                    return mk("sdiv" if op == "Div" else "srem", a, b)
            return div(a, b) if op == "Div" else mod(a, b)
        if op in ("Eq", "Ne"):
            r = teq(self.const_of(st, a), self.const_of(st, b)) if is_c(self.const_of(st, a)) and is_c(self.const_of(st, b)) else teq(a, b)
            return r if op == "Eq" else tnot(r)
        if op == "Lt":
            return tlt(a, b)
        if op == "Gt":
            return tlt(b, a)
        if op == "Le":
            return tnot(tlt(b, a))
        if op == "Ge":
            return tnot(tlt(a, b))
        if ty == "bool":
            if op == "BitAnd":
                return tand(a, b)
            if op == "BitOr":
                return tor(a, b)
            if op == "BitXor":
                return tnot(teq(a, b))
        if op == "Shl" and is_int(b):
            m = mul(a, C(2 ** b.args[0]))
            mx = UNSIGNED.get(ty)
            if mx is not None:
                lo, hi = bound(m)
                if hi is None or hi > mx:
                    m = mod(m, C(mx + 1))
            return m
        if op == "Shr" and is_int(b):
            return div(a, C(2 ** b.args[0]))
        if op == "BitAnd":
            for x, y in ((a, b), (b, a)):
                if is_int(y) and y.args[0] >= 0 and (y.args[0] & (y.args[0] + 1)) == 0:
                    if is_int(x):
                        return C(x.args[0] & y.args[0])
                    return mod(x, C(y.args[0] + 1))
            if is_int(a) and is_int(b):
                return C(a.args[0] & b.args[0])
            x, y = sorted((a, b))
            return mk("band", x, y)
        if op == "BitOr":
            if is_int(a) and is_int(b):
                return C(a.args[0] | b.args[0])
            for x, y in ((a, b), (b, a)):
                # x multiple of 2^k, y < 2^k
                g = self.pow2_factor(x)
                lo, hi = bound(y)
                if g and lo is not None and lo >= 0 and hi is not None and hi < g:
                    return add(x, y)
            x, y = sorted((a, b))
            return mk("bor", x, y)
        if op == "BitXor":
            if is_int(a) and is_int(b):
                return C(a.args[0] ^ b.args[0])
        if op == "Cmp":
            return mk("cmp", a, b)
        return mk(op, a, b)

    def pow2_factor(self, x):
        if is_int(x):
            c = x.args[0]
            if c == 0:
                return 2 ** 62
            g = c & -c
            return g
        if x.op == "lin":
            g = x.args[0] & -x.args[0] if x.args[0] else 2 ** 62
            for _, k in x.args[1]:
                g = min(g, abs(k) & -abs(k))
            return g if g > 1 else None
        if x.op == "mod" and is_int(x.args[1]):
            g = self.pow2_factor(x.args[0])
            m = x.args[1].args[0]
            if g and m & (m - 1) == 0:
                return min(g, m)
        return None

    def cast(self, st, v, fty, ty, ck):
        if v.op == "&":
            return v
        if ck.startswith("PointerCoercion") or ck in ("PtrToPtr", "FnPtrToPtr", "Transmute"):
            return v
        if ck == "IntToInt":
            if is_c(v):
                x = v.args[0]
                if type(x) is bool:
                    return C(int(x))
                if type(x) is str:
                    return C(ord(x))
                bits = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "u128": 128}.get(ty)
                if bits:
                    return C(x % 2 ** bits)
                sb = {"i8": 8, "i16": 16, "i32": 32, "i64": 64, "isize": 64}.get(ty)
                if sb:
                    x %= 2 ** sb
                    return C(x - 2 ** sb if x >= 2 ** (sb - 1) else x)
                if ty == "char":
                    return C(chr(x))
                return v
            if ty == "char" or fty in ("char", "bool"):
                return mk("cast", ty, v)
            if v.op == "discr" or fty not in UNSIGNED and fty not in ("i8", "i16", "i32", "i64", "isize", "i128"):
                return mk("cast", ty, v)
            self.note_ty(v, fty)
            if ty in ("u8", "u16", "u32"):
                mx = UNSIGNED[ty]
                lo, hi = bound(v)
                if lo is not None and lo >= 0 and hi is not None and hi <= mx:
                    return v
                if lo is not None and lo >= 0:
                    return mod(v, C(mx + 1))
                return mk("cast", ty, v)
            if fty in SIGNED and ty in UNSIGNED:
                lo = self.interval(st, v)[0]
                if lo is None or lo < 0:
                    return mk("cast", ty, v)
                SIGNED_TERMS.add(v)     # not negative on this path; says nothing about others
            order = ["i8", "i16", "i32", "i64", "isize", "i128"]
            if ty in order and fty in order and order.index(ty) < order.index(fty):
                return mk("cast", ty, v)
            if ty in ("i8", "i16"):
                lo, hi = bound(v)
                if lo is None or hi is None or hi > 2 ** (7 if ty == "i8" else 15) - 1:
                    return mk("cast", ty, v)
            return v
        if ck == "IntToFloat":
            return C(float(v.args[0])) if is_c(v) else mk("i2f", v)
        if ck == "FloatToInt":
            return mk("f2i", ty, v)
        if ck == "FloatToFloat":
            return C(float(v.args[0])) if is_c(v) else mk("f2f", ty, v)
        return mk("cast", ty, v)

    # ------------------------------------------------------------------ calls
    def call(self, st, f, fr, bi, b, t, par, depth):
        args = [self.operand(st, fr, f, o) for o in t["a"]]
        fo = t["f"]
        if fo["k"] == "fn":
            name = fo.get("resolved", fo["path"])
            info = fo
        else:
            fv = self.operand(st, fr, f, fo)
            fv = self.deep(st, fv)
            name = fv.args[0] if fv.op == "fn" else "<indirect>"
            info = {"args": [], "path": name, "local": name in self.p.fns}
        site = (f.name, bi)
        self.calls_seen[(f.name, bi)] = name
        dst_root = None
        outs = self.do_call(st, f, fr, bi, b, t, name, info, args, par, depth)
        res = []
        for s, v in outs:
            if v.op == "again":
                # an element passed over: the next turn of the loop which this call heads
                res.append((bi, s.copy()))
                continue
            if t["t"] is None:
                continue
            s = s.copy()
            r, p = self.place(s, fr, t["d"])
            if not t["d"][1]:
                self.note_ty(v, f.ty(t["d"][0]))
            self.write(s, r, p, v)
            res.append((t["t"], s))
        if t["t"] is None:
            self.panic(st, f, b, "diverging call " + name)
        return res

    def index_site(self, st, ci, ref, idx, n, kind):
        if self.on_index:
            self.on_index(st, ci, ref, idx, n, kind)

    def panic(self, st, f, b, what):
        self.panics.append((f.name, b["l"], what, st))

    def do_call(self, st, f, fr, bi, b, t, name, info, args, par, depth):
        ci = CallInfo(self, f, fr, bi, b, t, name, info, par, depth)
        if self.on_call:
            self.on_call(st, ci, args)
        for key in (name, info.get("path")):
            h = self.handlers.get(key)
            if h:
                r = h(self, st, ci, args)
                if r is not None:
                    return r
        import models
        if self.opaque(name):
            return [(self.havoc(st, name, args, info, ci), self.callterm(st, name, args, ci))]
        m = models.lookup(self, name, info)
        if m:
            r = m(self, st, ci, args)
            if r is not None:
                return r
        g = self.p.fns.get(name)
        if g is not None and g.kind in ("Fn", "AssocFn", "Closure"):
            if depth < self.maxdepth and (g.name not in ci.stack()):
                if g.kind == "Closure" and len(args) == 2:
                    # called through Fn::call: the arguments come as one tuple
                    args = [args[0]] + [get_field(args[1], str(i)) for i in range(g.argc - 1)]
                    if not g.ty(1).startswith("&") and args[0].op == "&":
                        args[0] = self.deep(st, args[0])
                return [(e.st, e.val) for e in self.call_fn(st, g, args, fr, par, depth + 1, tag=(bi, g.name))]
            self.unmodelled[name] = self.unmodelled.get(name, 0) + 1
        if g is None and not info.get("local") and True:
            self.unmodelled[name] = self.unmodelled.get(name, 0) + 1
        return [(self.havoc(st, name, args, info, ci), self.callterm(st, name, args, ci))]

    def snapshot(self, st, v, d=0):
        """a value with every reference replaced by what it points to"""
        if d > 6:
            return v
        if v.op == "&":
            return mk("ref", self.snapshot(st, self.read(st, v.args[0], v.args[1]), d + 1))
        if v.op == "S":
            return mk("S", v.args[0], v.args[1], v.args[2] and self.snapshot(st, v.args[2], d + 1),
                      tuple((k, self.snapshot(st, x, d + 1)) for k, x in v.args[3]))
        if v.op in ("veclit", "push", "store"):
            return mk(v.op, *[self.snapshot(st, x, d + 1) for x in v.args])
        return v

    def callterm(self, st, name, args, ci):
        return mk("call", name, tuple(self.snapshot(st, a) for a in args))

    def havoc(self, st, name, args, info, ci):
        s = st
        snaps = tuple(self.snapshot(st, a) for a in args)
        for i, a in enumerate(args):
            for (root, path) in self.mut_targets(st, a, ci.argty(i)):
                if s is st:
                    s = st.copy()
                self.write(s, root, path, mk("eff", name, i, snaps))
        return s

    def mut_targets(self, st, a, ty):
        if a.op == "&":
            if ty.startswith("&mut") or re.match(r"&'\w+ mut", ty) or ty.startswith("*mut"):
                return [(a.args[0], a.args[1])]
            return []
        if a.op == "S":
            # structures (iterators, closures) holding mutable references: havoc their targets
            out = []
            if "mut" in ty or "closure" in ty or "Iter" in ty:
                for x in subterms(a):
                    if x.op == "&" and ("IterMut" in ty or "&mut" in ty):
                        out.append((x.args[0], x.args[1]))
                if a.args[0] and str(a.args[0]).startswith("clos:"):
                    g = self.p.fns.get(a.args[0][5:])
                    for k, v in a.args[3]:
                        if v.op == "&" and g is not None and self.clos_mut(g, k):
                            out.append((v.args[0], v.args[1]))
            return out
        return []

    def clos_mut(self, g, k):
        ty = g.ty(1)
        # conservative: a capture is mutable when the closure body takes a mutable place through it
        for b in g.blocks:
            for s in b["s"]:
                if s["k"] == "=":
                    r = s["r"]
                    if r["k"] == "ref" and r["mut"] and any(e[0] == "F" and e[2] == k for e in r["p"][1]):
                        return True
                    p = s["p"]
                    if p[0] == 1 and any(e[0] == "F" and e[2] == k for e in p[1]):
                        return True
        return False

    def fork(self, st, atom):
        """[(state, bool)] for both feasible values of atom"""
        out = []
        for v in (True, False):
            s = self.assume(st, atom, v)
            if s is not None:
                out.append((s, v))
        return out

    def call_value(self, st, ci, fv, args, tag):
        """call a closure or fn value on args -> [(state, val)]"""
        fv2 = fv
        if fv.op == "&":
            fv2 = self.deep(st, fv)
        if fv2.op == "S" and str(fv2.args[0]).startswith("clos:"):
            g = self.p.fns.get(fv2.args[0][5:])
            if g is not None and ci.depth < self.maxdepth:
                s = st.copy()
                # argument 1: the closure environment (by reference or by value)
                if g.ty(1).startswith("&"):
                    if fv.op == "&":
                        env = fv
                    else:
                        root = ("B", ci.fr, "env", ci.bi, tag)
                        s.mem[root] = fv2
                        env = mk("&", root, ())
                else:
                    env = fv2
                return [(e.st, e.val) for e in
                        self.call_fn(s, g, [env] + list(args), ci.fr, ci.par, ci.depth + 1, tag=(ci.bi, g.name, tag))]
        if fv2.op == "fn":
            g = self.p.fns.get(fv2.args[0])
            if g is not None and ci.depth < self.maxdepth and not self.opaque(g.name):
                return [(e.st, e.val) for e in
                        self.call_fn(st, g, list(args), ci.fr, ci.par, ci.depth + 1, tag=(ci.bi, g.name, tag))]
            if g is not None and not any(g.ty(i + 1).startswith("&mut") for i in range(len(args))):
                return [(st, mk("call", g.name, tuple(self.snapshot(st, a) for a in args)))]
        return [(st, mk("callv", self.snapshot(st, fv2), tuple(self.snapshot(st, a) for a in args)))]

    def iterate(self, st, ci, tag, body):
        """abstract loop driven by a library adaptor: body(state) -> [states at the back edge]"""
        key = (ci.fr, ("it", ci.bi, tag), (st.trace,), "")
        s = self.head_arrive(key, st).copy()
        for e in body(s):
            self.head_arrive(key, e)
        return self.head[key].copy()


class CallInfo:
    def __init__(self, I, f, fr, bi, b, t, name, info, par, depth):
        self.I, self.f, self.fr, self.bi, self.b, self.t = I, f, fr, bi, b, t
        self.name, self.info, self.par, self.depth = name, info, par, depth

    def argty(self, i):
        o = self.t["a"][i]
        if o["k"] in ("copy", "move"):
            if not o["p"][1]:
                return self.f.ty(o["p"][0])
            return "&mut ?"
        return o.get("ty", "")

    def stack(self):
        # names of functions on the abstract call stack
        names = set()
        inv = {v: k for k, v in self.I.ctxs.items()}
        c = self.fr
        while c:
            p, w = inv[c]
            if isinstance(w, tuple):
                names.add(w[1])
            else:
                names.add(w)
            c = p
        return names

    @property
    def line(self):
        return self.b["l"]
