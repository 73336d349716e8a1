"""The Python and JavaScript packages: what they export is what the library offers."""
from props.grids import *

MOUSE = {"UpUp": 1, "UpDown": 2, "UpDownNotFlag": 3, "DownUp": 4, "Chording": 5, "ChordingNotFlag": 6, "DownUpAfterChording": 7, "Undefined": 8}
GAME = {"Ready": 1, "Playing": 2, "Win": 3, "Loss": 4, "PreFlaging": 5, "Display": 6}
FINE = ("unwrap on Err", "unwrap on None", "expect on Err", "expect on None", "index out of bounds")


# ---- what a wrapper does, written down without its Rust dress

def short(name):
    name = name.removeprefix("ms_toollib::")
    out, d = "", 0
    for i, c in enumerate(name):
        if c == "<":
            d += 1
        elif c == ">":
            d -= 1
        elif not d:
            out += c
    return out.replace("::::", "::")


def canon(t, I=None):
    if isinstance(t, tuple):
        return ",".join(canon(x, I) for x in t)
    if not hasattr(t, "op"):
        return str(t)
    o, a = t.op, t.args
    if o in ("ref", "*"):
        return canon(a[0], I)
    if o == "cast":
        return canon(a[1], I)
    if o == "mod" and a[1] is C(1 << 32):
        return canon(a[0], I)
    if o == "call":
        n = short(a[0])
        if n == "serde_json::to_string":
            return "json(" + canon(a[1], I) + ")"
        return n + "(" + canon(a[1], I) + ")"
    if o == "eff":
        return f"after{a[1]}({short(a[0])}({canon(a[2], I)}))"
    if o == ".":
        if a[1] in ("Ok.0", "Some.0"):
            return canon(a[0], I)
        b = canon(a[0], I)
        return b + "." + (a[1][len("Ok.0."):] if a[1].startswith("Ok.0.") else a[1])
    if o == "sel":
        return f"{canon(a[0], I)}[{canon(a[1], I)}]"
    if o == "phi" and I is not None:
        j = matrix(I, t)
        if j is not None:
            return f"frame({canon(j, I)})"
        j = handed(I, t)
        return f"steps({canon(j, I)})" if j is not None else show(t)
    if o == "S":
        if a[1] == "Err":
            return "Err"
        fs = [canon(v, I) for k, v in a[3]]
        if a[2] is not None:
            return show(t)
        if a[1]:
            return f"{a[1]}({','.join(fs)})" if fs else a[1]
        return f"({','.join(fs)})"
    if o == "veclit":
        return "[" + ",".join(canon(x, I) for x in a) + "]"
    if o == "c":
        return str(a[0]).removesuffix("\0") if isinstance(a[0], str) else repr(a[0])
    return show(t)


def changes(I, e, root=("P", "self")):
    """places of the object left with another value"""
    v = e.st.mem.get(root)
    out = {}

    def walk(t, path):
        if t.op == "S" and t.args[2] is not None and show(t.args[2]) == ".".join(path):
            for k, x in t.args[3]:
                walk(x, path + [k])
        elif show(t) != ".".join(path):
            out[".".join(path)] = canon(t, I)
    if v is not None:
        walk(v, ["self"])
    return out


def seq_map(I, L):
    """(turn variable, sequence, element) when the list is one element per element of a sequence, in order"""
    if L.op != "phi":
        return None
    ins = I.phi_in.get(L, {})
    own = [t for t in ins if t.op == "push" and t.args[0] is L]
    if len(own) != 1 or any(t is not own[0] and t is not mk("veclit") for t in ins) or len(ins) != 2:
        return None
    for c in I.phi_in:
        if c.args[0] == L.args[0] and set(I.phi_in[c]) == {C(0), add(c, C(1))}:
            seqs = {f.args[1] for s in I.phi_in[c][add(c, C(1))] for f, v in s.facts.items() if f.op == "lt" and v and f.args[0] is c and f.args[1].op == "len"}
            for q in seqs:
                if all(s.facts.get(tlt(c, q)) is False or I.ev(s, tlt(c, q)) is False for s in I.leaves.get(L.args[0], ())):
                    return c, q.args[0], own[0].args[1]
    return None


def plain(t):
    while t.op in ("ref", "*"):
        t = t.args[0]
    return t


def called(t, name):
    """argument of the successful call of a function"""
    t = plain(t)
    if t.op == "." and t.args[1] in ("Ok.0", "Some.0") and t.args[0].op == "call" and t.args[0].args[0].endswith(name):
        return [plain(x) for x in t.args[0].args[1]]
    return None


def json_of(t):
    a = called(t, "serde_json::from_str")
    return a[0] if a else None


def rows_of(t):
    a = called(t, "as_array")
    return a[0] if a else None


def at_of(X, c):
    """the ways an element of a sequence may be written"""
    return plain(select(plain(X), c)), plain(select(X, c)), select(mk("*", plain(X)), c)


def matrix(I, t):
    """the text whose JSON the nested list is"""
    m = seq_map(I, t)
    if m is None:
        return None
    c, X, e = m
    m2 = seq_map(I, e)
    if m2 is None:
        return None
    c2, X2, e2 = m2
    top, row = rows_of(X), rows_of(X2)
    if top is None or row is None or row not in at_of(X, c) or json_of(top) is None:
        return None
    n = called(e2.args[1], "as_i64") if e2.op == "cast" and e2.args[0] == "i32" else None
    return json_of(top) if n and n[0] in at_of(X2, c2) else None


def operations(I, t):
    """the text whose JSON lists the operations: a name and two numbers each"""
    m = seq_map(I, t)
    if m is None:
        return None
    c, X, e = m
    top = rows_of(X)
    if top is None or json_of(top) is None:
        return None

    def item(x, k, how):
        a = called(x, how)
        b = called(a[0], "Value::get") if a else None
        return b is not None and b[0] in at_of(X, c) and b[1] is C(k)
    try:
        pos = get_field(e, "1")
        ok = item(get_field(e, "0"), 0, "as_str") and item(get_field(pos, "0"), 1, "as_u64") and item(get_field(pos, "1"), 2, "as_u64")
    except Exception:
        ok = False
    return json_of(top) if ok else None


def handed(I, t):
    """the same operations, passed on item by item"""
    j = operations(I, t)
    if j is not None:
        return j
    m = seq_map(I, t)
    if m is None:
        return None
    c, X, e = m
    x = select(plain(X), c)
    try:
        st = next(s for t_, ss in I.phi_in[t].items() if t_.op == "push" for s in ss)
        same_ = plain(I.snapshot(st, get_field(e, "0"))) is plain(get_field(x, "0")) and all(get_field(get_field(e, "1"), k) is get_field(get_field(x, "1"), k) for k in "01")
    except Exception:
        return None
    return operations(I, plain(X)) if same_ else None


class Seen:
    """analysed wrappers of one package"""

    def __init__(self, ck, p, names):
        self.ck, self.p, self.names = ck, p, names
        self.done = {}

    def run(self, fname):
        if fname not in self.done:
            I = Interp(self.p, handlers=self.saves())
            self.done[fname] = (I, I.analyse(fname))
            self.ck.use(I, self.done[fname][1])
        return self.done[fname]

    def saves(self):
        def h(I, st, ci, a):
            # a call for its effect on the outside: remember it
            x = tuple(I.snapshot(st, y) for y in a)
            old = st.mem.get(("P", "outside"), mk("veclit"))
            st = st.copy()
            st.mem[("P", "outside")] = mk("push", old, mk("call", ci.name, x))
            return [(st, S("tuple", None, {}))]
        return {"ms_toollib::BaseVideo::<T>::save_to_evf_file": h}

    def forward(self, key, fname, want, effect=None, outside=None):
        """every path returns `want` (a text, or {conditions: text}) and leaves exactly the effects"""
        f = self.p.fns[fname]
        w = loc(f)
        I, ex = self.run(fname)
        if not self.ck.ob(key, bool(ex), f"{fname} never returns", w):
            return
        got = {}
        for e in ex:
            conds = frozenset(("" if v else "!") + canon(t.args[0], I) for t, v in e.st.facts.items() if t.op == "isv" and t.args[1] in ("Ok", "Some"))
            got.setdefault(conds, set()).add(canon(I.deep(e.st, e.val), I))
        if isinstance(want, dict) and "of" in want:
            # one value when the call `of` succeeds, another when it fails
            ok = all(want["of"] in c or "!" + want["of"] in c for c in got) and \
                all(v == {want["" if want["of"] in c else "!"]} for c, v in got.items())
            self.ck.ob(key, ok, f"{fname}: expected {want}, found {fmt(got)}", w)
        elif isinstance(want, dict):
            ok = {frozenset(k): {v} for k, v in want.items()} == got
            self.ck.ob(key, ok, f"{fname}: expected {fmt(want)}, found {fmt(got)}", w)
        else:
            vals = set().union(*got.values())
            self.ck.ob(key, vals == {want}, f"{fname}: expected {want}, found {', '.join(sorted(vals))[:300]}", w)
        effect = effect or {}
        for e in ex:
            ch = changes(I, e)
            if ch != effect:
                self.ck.fail(key, f"{fname}: expected {effect or 'no change'} of the object, found {ch or 'none'}", w)
            o = e.st.mem.get(("P", "outside"))
            o = canon(o.args[1], I) if o is not None and o.op == "push" and o.args[0] is mk("veclit") else None if o is None else show(o)
            if o != outside:
                self.ck.fail(key, f"{fname}: expected {outside or 'no'} call, found {o}", w)
        self.quiet(key, I, w)

    def quiet(self, key, I, w):
        for fn, line, what, st in I.panics:
            refused = any(t.op == "isv" and v == (t.args[1] in ("Err", "None")) and t.args[0].op == "call" for t, v in st.facts.items())
            if not refused and not any(x in what for x in FINE):
                self.ck.fail(key, f"{fn}: {what}", f"{w} line {line}")

    def enum(self, key, fname, place, table, wrap):
        """the number of the variant standing at `place`"""
        f = self.p.fns[fname]
        w = loc(f)
        I, ex = self.run(fname)
        ty = "MouseState" if table is MOUSE else "GameBoardState"
        self.ck.ob(key, bool(ex), f"{fname} never returns", w)
        for n, num in table.items():
            k = self.names[ty].get(n)
            vals = set()
            for e in ex:
                if all(self.holds(t, v, place, n, k) for t, v in e.st.facts.items()):
                    vals.add(canon(I.deep(e.st, e.val), I))
            self.ck.ob(f"{key}:{n}", vals == {wrap.format(num)}, f"{fname}: {n} should be {num}, found {', '.join(sorted(vals)) or 'nothing'}", w)
        for e in ex:
            if changes(I, e):
                self.ck.fail(key, f"{fname} changes the object", w)
            if any(not self.known(t, place) for t in e.st.facts):
                self.ck.fail(key, f"{fname} also depends on {[show(t) for t in e.st.facts if not self.known(t, place)][0][:200]}", w)
        self.quiet(key, I, w)

    @staticmethod
    def known(t, place):
        return t.op == "eq" and t.args[0].op == "discr" and canon(t.args[0].args[0]) == place or t.op in ("isv", "iseq") and canon(t.args[0]) == place or \
            t.op == "lt" and t.args[1].op == "len"

    @staticmethod
    def holds(t, v, place, n, k):
        if t.op == "eq" and t.args[0].op == "discr" and canon(t.args[0].args[0]) == place and t.args[1].op == "c":
            return (t.args[1].args[0] == k) == v
        if t.op == "isv" and canon(t.args[0]) == place:
            return (t.args[1] == n) == v
        return True


def fmt(d):
    return "; ".join(f"[{' & '.join(sorted(k)) or 'always'}] {v if isinstance(v, str) else '/'.join(sorted(v))[:200]}" for k, v in d.items())


def variants():
    """index of the variants of the library's enumerations"""
    out = {}
    for n, a in dump("base").adts.items():
        k = n.split("::")[-1]
        if k in ("MouseState", "GameBoardState"):
            out[k] = {v["n"]: i for i, v in enumerate(a["variants"])}
    return out


# ---- what the Python module exports

def own_calls(p, fname):
    """functions of the package a function refers to"""
    out = []
    f = p.fns[fname]
    for b in f.blocks:
        if b["c"]:
            continue
        for s in b["s"]:
            out += refs(s)
        out += refs(b["t"])
    return [x for x in out if x in p.fns]


def refs(x):
    if isinstance(x, dict):
        r = []
        if x.get("k") == "fn":
            r.append(x.get("resolved") or x.get("path"))
        for v in x.values():
            r += refs(v)
        return r
    if isinstance(x, list):
        return [y for v in x for y in refs(v)]
    return []


def generated(n):
    return "::_::" in n or n.endswith("::_")


def behind(p, fname):
    """hand-written function a generated entry calls"""
    seen, work = set(), [fname]
    while work:
        n = work.pop(0)
        if n in seen:
            continue
        seen.add(n)
        for x in own_calls(p, n):
            if generated(x):
                work.append(x)
            elif p.fns[x].kind in ("Fn", "AssocFn"):
                return x
    return None


class Exports:
    def __init__(self, p):
        self.p = p
        self.module()
        self.classes()

    def module(self):
        p = self.p
        I = Interp(p)
        entry = [n for n, f in p.fns.items() if f.kind == "Fn" and f.item == "ms_toollib" and not generated(n)]
        self.fns, self.cls, self.entry = {}, set(), entry
        defs = {}
        for n, f in p.fns.items():
            m = re.search(r"<impl (\S+)::MakeDef>::DEF$", n)
            if m:
                ex = I.analyse(n)
                v = ex[0].val
                if v.op == "call" and "PyMethodDef" in v.args[0]:
                    tr = [x for x in own_calls(p, n) if "trampoline" in x]
                    defs[m.group(1)] = (canon(v.args[1][0]), behind(p, tr[0]) if tr else None)
        if not entry:
            return
        I = Interp(p)
        ex = I.analyse(entry[0])
        self.steps = I
        done = [e for e in ex if okv(e.val) is not None]
        self.done = len(done)
        by_name = {a: b for a, b in defs.values()}
        for e in done:
            for t, v in e.st.facts.items():
                if t.op == "isv" and v and t.args[0].op == "call":
                    n = t.args[0].args[0]
                    if n.endswith("_wrap_pyfunction"):
                        m = canon(t.args[0].args[1][0])
                        nm = m[1:].split(",")[0].strip("'\"").split("\0")[0]
                        self.fns[nm] = by_name.get(nm)
        f = p.fns[entry[0]]
        for b in f.blocks:
            t = b["t"]
            if t["k"] == "call" and not b["c"]:
                for x in [t["f"]] if isinstance(t.get("f"), dict) else []:
                    if x.get("k") == "fn" and x.get("path", "").endswith("add_class"):
                        self.cls |= {y.split("::")[-1] for y in x["args"]}

    def classes(self):
        """{Python name of a class: (Rust type, {(kind, name): function})}"""
        p = self.p
        self.types = {}
        for n, f in p.fns.items():
            m = re.search(r"<impl pyo3::PyTypeInfo for (\S+)>::NAME$", n)
            if m:
                self.types[m.group(1)] = (canon(Interp(p).analyse(n)[0].val), {})
        for ty, (nm, tab) in self.types.items():
            it = [n for n in p.fns if re.search(rf"PyMethods<{re.escape(ty)}> for [^>]*<{re.escape(ty)}>>::py_methods::ITEMS::\{{promoted#", n)]
            tr = [n for n, f in p.fns.items() if f"PyClassImplCollector<{ty}>>::py_methods::ITEMS::trampoline" in n and "text_signature" not in n]
            k = 0
            for n in sorted(it, reverse=True):      # methods come before slots, as their trampolines do
                I = Interp(p)
                for e in I.analyse(n):
                    v = I.deep(e.st, e.val)
                    v = plain(v)
                    for x in v.args if v.op == "veclit" else ():
                        kind = x.args[1] if x.op == "S" else None
                        if kind in ("Getter", "Setter"):
                            c = x.args[3][0][1]
                            fn = [y for y in subterms(c) if y.op == "fn"]
                            tab[(kind, canon(c.args[1][0]))] = behind(p, fn[0].args[0]) if fn else None
                        elif kind == "Method":
                            c = x.args[3][0][1]
                            if k < len(tr):
                                tab[(kind, canon(c.args[1][0]))] = behind(p, tr[k])
                            k += 1
            new = [n for n in p.fns if n.endswith(f"<impl {ty}>::__pymethod___new____")]
            if new:
                tab[("New", "")] = behind(p, new[0])
            for n in p.fns:
                m = re.search(rf"<impl {re.escape(ty)}>::__pymethod_(__\w+?__)__$", n)
                if m and m.group(1) != "__new__":
                    tab[("Slot", m.group(1))] = behind(p, n)


# ---- B01: the functions of the Python module

SAME = {  # exported name: number of arguments handed over unchanged
    "refresh_matrix": 1, "refresh_matrixs": 1, "cal_op": 1, "cal_bbbv": 1, "laymine": 5, "laymine_op": 5, "unsolvable_structure": 1, "is_solvable": 3,
    "laymine_solvable": 6, "laymine_solvable_thread": 6, "laymine_solvable_adjust": 5, "sample_3BVs_exp": 3, "is_guess_while_needless": 2, "is_able_to_solve": 2,
    "enuOneStep": 3}


def args(n):
    return ",".join(f"a{i + 1}" for i in range(n))


def functions():
    t = {n: f"Ok({n}({args(k)}))" for n, k in SAME.items()}
    for n in ("solve_minus", "solve_direct"):
        c = f"{n}(a1,a2,a3,a4)"
        t[n] = {("!" + c,): "Err", (c,): f"Ok((after0({c}),after1({c}),after2({c}),after3({c}),{c}.0,{c}.1))"}
    t["refresh_board"] = "Ok(after1(refresh_board(a1,a2,a3)))"
    t["mark_board"] = "Ok(after0(mark_board(a1)))"
    m = "refresh_matrixs(a1)"
    c = f"get_all_not_and_is_mine_on_board({m}.0,{m}.1,{m}.2,a1)"
    t["get_all_not_and_is_mine_on_board"] = f"Ok((after3({c}),{c}.0,{c}.1))"
    c = f"solve_enumerate({m}.0,{m}.1,{m}.2)"
    t["solve_enumerate"] = {(): (f"Ok(({c}.0,{c}.1))", f"Ok({c})")}
    for n in ("cal_possibility", "cal_possibility_onboard"):
        b, c = "mark_board(a1)", f"{n}(after0(mark_board(a1)),a2)"
        t[n] = {("!" + b,): "Err", (b, "!" + c): "Err", (b, c): f"Ok({c})"}
    c = "OBR_board(a1,a2,a3)"
    t["OBR_board"] = {("!" + c,): "Ok([[200]])", (c,): f"Ok({c})"}
    return t


def b01(ck):
    ck.rule = ("for every name the Python module registers: the hand-written function behind it returns, on every abstract path, exactly the value of the library function of that name called with "
               "the arguments in order (for functions that work in place: the changed arguments), raising only when the library function fails")
    p = dump("python_package")
    E = Exports(p)
    ck.ob("module", E.done >= 1, "the module function never completes")
    se = Seen(ck, p, {})
    want = functions()
    ck.floor("functions", len(E.fns), len(want))
    for n, w in sorted(want.items()):
        f = E.fns.get(n)
        if f is None:
            ck.fail(f"{n}/registered", f"the Python module does not register a function {n}", loc(p.fns[E.entry[0]]) if E.entry else "")
            continue
        if isinstance(w, dict) and any(isinstance(v, tuple) for v in w.values()):
            se_alts(se, n, f, [{k: (v[i] if isinstance(v, tuple) else v) for k, v in w.items()} for i in range(2)])
        else:
            se.forward(n, f, w)
    for n in ("MinesweeperBoard", "SafeMinesweeperBoard", "AvfVideo", "RmvVideo", "MvfVideo", "EvfVideo", "BaseVideo", "GameBoard", "Board", "SafeBoard"):
        ty = [t for t, (nm, _) in E.types.items() if nm == n]
        ck.ob(f"class {n}", ty and ty[0].split("::")[-1] in E.cls, f"the Python module does not register a class {n}", loc(p.fns[E.entry[0]]) if E.entry else "")


def se_alts(se, key, f, alts):
    """any of several ways to write the same"""
    n = len(se.ck.obs)
    for a in alts:
        del se.ck.obs[n:]
        se.forward(key, f, a)
        if all(o[1] for o in se.ck.obs[n:]):
            return


# ---- B02: the objects of the Python module

FIELDS = ("software", "level", "mode", "is_completed", "is_offical", "is_fair", "mine_num", "player_designator", "race_designator", "uniqueness_designator", "country", "start_time", "end_time",
          "current_event_id")
STATICS = ("bbbv", "op", "isl", "hizi") + tuple(f"cell{i}" for i in range(9))
CALLS = ("time", "rtime", "rtime_ms", "etime", "video_start_time", "video_end_time", "bbbv_s", "stnb", "rqp", "left", "right", "double", "cl", "flag", "bbbv_solved", "ce", "left_s", "right_s", "double_s",
         "cl_s", "flag_s", "path", "ce_s", "ioe", "thrp", "corr", "raw_data", "x_y", "checksum", "game_board")
EVENTS = {"time": "time", "mouse": "mouse", "x": "x", "y": "y", "useful_level": "useful_level"}


def video(D):
    """(kind, name) -> (value, effects), for the views every replay object offers"""
    t = {("Getter", n): (f"{D}.{n}", {}) for n in FIELDS}
    t.update({("Getter", n): (f"{D}.static_params.{n}", {}) for n in STATICS})
    t.update({("Getter", n): (f"BaseVideo::get_{n}({D})", {}) for n in CALLS})
    t[("Getter", "row")] = (f"{D}.height", {})
    t[("Getter", "column")] = (f"{D}.width", {})
    ev = f"{D}.video_action_state_recorder"
    t[("Getter", "events_len")] = (f"len({ev})", {})
    for n in EVENTS:
        t[("Method", f"events_{n}")] = (f"{ev}[a2].{n}", {})
    t[("Getter", "game_board_poss")] = (f"BaseVideo::get_game_board_poss({D})", {D: f"after0(BaseVideo::get_game_board_poss({D}))"})
    t[("Setter", "current_event_id")] = (None, {f"{D}.current_event_id": "a2"})
    t[("Setter", "current_time")] = (None, {D: f"after0(BaseVideo::set_current_time({D},a2))"})
    return t


def python_video(D):
    t = video(D)
    ev = f"{D}.video_action_state_recorder"
    t[("Method", "events_comments")] = (f"{ev}[a2].comments", {})
    t[("Method", "events_prior_game_board")] = (f"({D}.game_board_stream[{ev}[a2].prior_game_board_id])", {})
    t[("Setter", "video_playing_pix_size")] = (None, {D: f"after0(BaseVideo::set_video_playing_pix_size({D},a2))"})
    t[("Method", "generate_evf_v0_raw_data")] = (None, {D: f"after0(BaseVideo::generate_evf_v0_raw_data({D}))"})
    return t


def python_base():
    D = "self.core"
    t = python_video(D)
    for n in ("is_offical", "is_fair", "mode", "software", "player_designator", "race_designator", "uniqueness_designator", "country", "device_uuid", "checksum", "pix_size", "board"):
        t[("Setter", n)] = (None, {D: f"after0(BaseVideo::set_{n}({D},a2))"})
    t[("Method", "step")] = (None, {D: f"after0(BaseVideo::step({D},a2,a3))"})
    t[("Method", "reset")] = (None, {D: f"after0(BaseVideo::reset({D},a2,a3,a4))"})
    for n in ("win_then_flag_all_mine", "loss_then_open_all_mine"):
        t[("Method", n)] = (None, {D: f"after0(BaseVideo::{n}({D}))"})
    t[("Getter", "mouse_state")] = ("BaseVideo::get_mouse_state(self.core)", {})
    t[("Getter", "board")] = ("(SafeBoard::new(SafeBoard::into_vec_vec(self.core.minesweeper_board.board)))", {})
    t[("New", "")] = ("!(BaseVideo::new_before_game(a1,a2))", {})
    return t


def machine(kind):
    C_ = "self.core"
    t = {("Getter", n): (f"{C_}.{n}", {}) for n in ("left", "right", "double", "ce", "flag", "bbbv_solved", "row", "column", "game_board")}
    t[("Method", "step")] = (None, {C_: f"after0(MinesweeperBoard::step({C_},a2,a3))"})
    t[("Method", "step_flow")] = (None, {C_: f"after0(MinesweeperBoard::step_flow({C_},a2))"})
    if kind == "plain":
        t[("Method", "reset")] = (None, {C_: f"after0(MinesweeperBoard::reset({C_}))"})
        t[("Setter", "board")] = (None, {f"{C_}.board": "a2"})
        t[("Getter", "board")] = (f"{C_}.board", {})
        t[("New", "")] = ("!(MinesweeperBoard::new(a1))", {})
    else:
        t[("Setter", "board")] = (None, {f"{C_}.board": f"after0(SafeBoard::set({C_}.board,a2))"})
        t[("Getter", "board")] = (f"SafeBoard::into_vec_vec({C_}.board)", {})
        t[("New", "")] = ("!(MinesweeperBoard::new(SafeBoard::new(a1)))", {})
    return t


def asks(ty, names):
    return {("Getter", n): (f"{ty}::get_{n}(self.core)", {"self.core": f"after0({ty}::get_{n}(self.core))"}) for n in names}


def b02(ck):
    ck.rule = ("for every property and method the Python classes export: the hand-written function behind it returns, on every abstract path, exactly the field of the wrapped library object or the value "
               "of the library method of that name with the arguments in order, and changes the wrapped object exactly by that method or assignment; numbers of states follow one table")
    p = dump("python_package")
    E = Exports(p)
    se = Seen(ck, p, variants())
    classes = {nm: (ty, tab) for ty, (nm, tab) in E.types.items()}
    n = 0

    def views(cls, spec):
        nonlocal n
        ty, tab = classes.get(cls, (None, {}))
        if ty is None:
            ck.fail(f"{cls}/class", f"no class {cls}")
            return
        for (kind, name), (val, eff) in sorted(spec.items()):
            key = f"{cls}.{name or 'new'}" + ("=" if kind == "Setter" else "")
            f = tab.get((kind, name))
            if f is None:
                ck.fail(key, f"class {cls} has no {kind.lower()} {name}")
                continue
            n += 1
            se.forward(key, f, "()" if val is None else val[1:] if val.startswith("!") else f"Ok({val})", eff)
        return tab

    def state(cls, kind, name, place, table):
        nonlocal n
        f = classes.get(cls, (None, {}))[1].get((kind, name))
        if f is None:
            ck.fail(f"{cls}.{name}", f"class {cls} has no {kind.lower()} {name}")
            return
        n += 1
        se.enum(f"{cls}.{name}", f, place, table, "Ok({})")

    for v in ("AvfVideo", "EvfVideo", "MvfVideo", "RmvVideo"):
        D = "self.core.data"
        t = python_video(D)
        t[("New", "")] = (f"!({v}::new(a1))", {})
        t[("Method", "parse_video")] = (None, {"self.core": f"after0({v}::parse_video(self.core))"})
        t[("Method", "analyse")] = (None, {D: f"after0(BaseVideo::analyse({D}))"})
        t[("Method", "analyse_for_features")] = (None, {D: f"after0(BaseVideo::analyse_for_features({D},a2))"})
        t[("Getter", "game_board_state")] = ("1", {})
        views(v, t)
        ev = f"{D}.video_action_state_recorder"
        state(v, "Method", "events_mouse_state", f"{ev}[a2].mouse_state", MOUSE)
        state(v, "Getter", "mouse_state", f"{ev}[{D}.current_event_id].mouse_state", MOUSE)
        saved(ck, se, v, classes, D)
    views("BaseVideo", python_base())
    state("BaseVideo", "Method", "events_mouse_state", "self.core.video_action_state_recorder[a2].mouse_state", MOUSE)
    state("BaseVideo", "Getter", "game_board_state", "self.core.game_board_state", GAME)
    saved(ck, se, "BaseVideo", classes, "self.core")
    for c, k in (("MinesweeperBoard", "plain"), ("SafeMinesweeperBoard", "safe")):
        views(c, machine(k))
        state(c, "Getter", "game_board_state", "self.core.game_board_state", GAME)
        state(c, "Getter", "mouse_state", "self.core.mouse_state", MOUSE)
        learning(ck, se, c, classes)
    t = asks("GameBoard", ("poss", "basic_not_mine", "basic_is_mine", "enum_not_mine", "enum_is_mine"))
    t[("Setter", "game_board")] = (None, {"self.core": "after0(GameBoard::set_game_board(self.core,a2))"})
    t[("New", "")] = ("!(GameBoard::new(a1))", {})
    views("GameBoard", t)
    t = asks("Board", ("bbbv", "op", "isl") + tuple(f"cell{i}" for i in range(9)))
    t[("New", "")] = ("!(Board::new(a1))", {})
    views("Board", t)
    t = {("Method", "into_vec_vec"): ("SafeBoard::into_vec_vec(self.core)", {}), ("Method", "set"): (None, {"self.core": "after0(SafeBoard::set(self.core,a2))"}),
         ("New", ""): ("!(SafeBoard::new(a1))", {})}
    views("SafeBoard", t)
    ck.floor("members", n, 460)


def saved(ck, se, cls, classes, D):
    f = classes.get(cls, (None, {}))[1].get(("Method", "save_to_evf_file"))
    if f is None:
        ck.fail(f"{cls}.save_to_evf_file", f"class {cls} has no method save_to_evf_file")
    else:
        se.forward(f"{cls}.save_to_evf_file", f, "()", {}, f"BaseVideo::save_to_evf_file({D},a2)")


def learning(ck, se, cls, classes):
    """what a player sees, as numbers, and next to it the chance of a mine in every cell"""
    key = f"{cls}.get_game_board_2"
    f = classes.get(cls, (None, {}))[1].get(("Method", "get_game_board_2"))
    if f is None:
        ck.fail(key, f"class {cls} has no method get_game_board_2")
        return
    g = se.p.fns[f]
    w = loc(g)
    I = Interp(se.p)
    I.split = lambda n: True
    ex = I.analyse(f)
    ck.use(I, ex)
    GB = get_field(get_field(mk("init", "self"), "core"), "game_board")
    ck.ob(key, bool(ex), "never returns", w)
    for e in ex:
        v = okv(I.deep(e.st, e.val))
        if not ck.ob(key + "/shape", v is not None and v.op == "veclit" and len(v.args) == 2, f"returns {show(e.val)[:200]}", w):
            continue
        ck.ob(key + "/keeps", not changes(I, e), "changes the object", w)
        seen, chance = v.args

        def number(s, i, j, cell):
            a, b = cell(lambda c: teq(c, C(10))), cell(lambda c: teq(c, C(11)))
            if a:
                return C(-1.0)
            if b:
                return C(-2.0)
            return mk("i2f", select(select(GB, i), j)) if a is False and b is False else None

        def covered(s, i, j, cell):
            r = cell(lambda c: tlt(C(10), c))
            if r is None:
                r = cell(lambda c: teq(c, C(11)))        # marks are the only cells above 10 of a game that is not over
                r = None if not r else r
            return None if r is None else C(10) if r else KEEP
        cols = lambda i: []
        gridmap(ck, key + "/seen", I, seen, [GB], number, [], cols, w)
        got = called(chance.args[0], "::cal_possibility_onboard") if chance.op == "." and chance.args[1] == "0" else None
        if got is None and chance.op == "." and chance.args[1] in ("Ok.0.0",):
            got = [plain(x) for x in chance.args[0].args[1]]
        if not ck.ob(key + "/chance", got is not None and len(got) == 2 and got[1] is mk("init", "a2"), f"second board is {show(chance)[:200]}", w):
            continue
        b = got[0]
        if not ck.ob(key + "/marked", b.op == "eff" and b.args[0].endswith("::mark_board") and b.args[1] == 0, f"chances computed on {show(b)[:200]}", w):
            continue
        gridmap(ck, key + "/unmarked", I, plain(b.args[2][0]), [GB], covered, [], cols, w)


# ---- B03: the JavaScript package

def b03(ck):
    ck.rule = ("for every function and method the JavaScript package exports: it returns, on every abstract path, exactly the field of the wrapped library object or the value of the library function of that "
               "name with the arguments in order (boards as JSON text, read row by row and written whole), and changes the wrapped object exactly by that method or assignment")
    p = dump("wasm")
    se = Seen(ck, p, variants())
    n = 0

    def member(key, f, val, eff=None):
        nonlocal n
        n += 1
        se.forward(key, f, val, eff)

    def find(item, ty=None):
        c = [x for x, f in p.fns.items() if f.item == item and f.kind in ("Fn", "AssocFn") and not f.exp and "generated" not in x and "closure" not in x and (f.impl_self or "").split("::")[-1] == (ty or "")
             and not f.impl_trait]
        if not c:      # functions a macro of the package writes
            c = [x for x, f in p.fns.items() if f.item == item and f.kind in ("Fn", "AssocFn") and "generated" not in x and "closure" not in x and (f.impl_self or "").split("::")[-1] == (ty or "") and not f.impl_trait]
        return c[0] if c else None

    def fn(item, val):
        f = find(item)
        if f is None:
            return ck.fail(item, f"the JavaScript package has no function {item}")
        member(item, f, val)

    fn("cal_bbbv", "cal_bbbv(frame(a1))")
    fn("cal_op", "cal_op(frame(a1))")
    fn("laymine_number", "json(laymine(a1,a2,a3,a4,a5))")
    fn("laymine_op_number", "json(laymine_op(a1,a2,a3,a4,a5))")
    fn("laymine_solvable", "json(laymine_solvable(a1,a2,a3,a4,a5,a6))")
    m = "after0(mark_board(frame(a1)))"
    fn("cal_possibility_onboard", {"!": "json(([],[0,0,0]))", "": f"json(cal_possibility_onboard({m},i2f(a2)))", "of": f"cal_possibility_onboard({m},i2f(a2))"})

    def views(ty, spec):
        for (kind, name), (val, eff) in sorted(spec.items()):
            rust = name if kind == "Method" else "new" if kind == "New" else ("get_" if kind == "Getter" else "set_") + name
            key = f"{ty}.{name or 'new'}" + ("=" if kind == "Setter" else "")
            f = find(rust, ty)
            if f is None:
                ck.fail(key, f"class {ty} has no {rust}")
                continue
            member(key, f, "()" if val is None else val, eff)

    def state(ty, rust, place, table):
        nonlocal n
        f = find(rust, ty)
        if f is None:
            return ck.fail(f"{ty}.{rust}", f"class {ty} has no {rust}")
        n += 1
        se.enum(f"{ty}.{rust}", f, place, table, "{}")

    c = "self.core"
    t = {("Getter", x): (f"{c}.{x}", {}) for x in ("left", "right", "double", "ce", "flag", "bbbv_solved", "row", "column")}
    for x in ("board", "game_board"):
        t[("Getter", x)] = (f"json({c}.{x})", {})
        t[("Setter", x)] = (None, {f"{c}.{x}": "frame(a2)"})
    t[("Method", "step")] = (None, {c: f"after0(MinesweeperBoard::step({c},a2,(a3,a4)))"})
    t[("Method", "step_flow")] = (None, {c: f"after0(MinesweeperBoard::step_flow({c},steps(a2)))"})
    t[("New", "")] = ("(MinesweeperBoard::new(frame(a1)))", {})
    views("MinesweeperBoard", t)
    state("MinesweeperBoard", "get_game_board_state", f"{c}.game_board_state", GAME)
    state("MinesweeperBoard", "get_mouse_state", f"{c}.mouse_state", MOUSE)
    for v in ("AvfVideo", "EvfVideo", "MvfVideo", "RmvVideo"):
        D = "self.core.data"
        t = video(D)
        t[("Getter", "device_uuid")] = (f"{D}.device_uuid", {})
        t[("Getter", "game_board")] = (f"json(BaseVideo::get_game_board({D}))", {})
        t[("Getter", "game_board_poss")] = (f"json(BaseVideo::get_game_board_poss({D}))", t[("Getter", "game_board_poss")][1])
        t[("Getter", "pix_size")] = (f"BaseVideo::get_pix_size({D})", {})
        t[("Getter", "x_y")] = (f"(BaseVideo::get_x_y({D}).0,BaseVideo::get_x_y({D}).1)", {})
        t[("Method", "is_valid")] = (f"BaseVideo::is_valid({D})", {})
        t[("Method", "parse_video")] = (None, {c: f"after0({v}::parse_video({c}))"})
        t[("Method", "analyse")] = (None, {D: f"after0(BaseVideo::analyse({D}))"})
        t[("New", "")] = (f"({v}::new(a1,a2))", {})
        for k in (("Getter", "time"),):
            t.pop(k)
        views(v, t)
        ev = f"{D}.video_action_state_recorder"
        state(v, "events_mouse_state", f"{ev}[a2].mouse_state", MOUSE)
        state(v, "get_mouse_state", f"{ev}[{D}.current_event_id].mouse_state", MOUSE)
        state(v, "get_game_board_state", f"{D}.game_board_state", GAME)
    ck.floor("members", n, 270)
