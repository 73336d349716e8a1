"""Loader and pretty printer for the JSON written by the msdump driver."""
import json


class Fn:
    __slots__ = ("name", "kind", "file", "line", "argc", "locals", "blocks", "dbg", "raw",
                 "impl_self", "impl_trait", "item", "vis", "sig", "exp", "_preds", "crate")

    def __init__(self, r, crate):
        self.raw = r
        self.crate = crate
        for k in ("name", "kind", "file", "line", "argc", "locals", "blocks", "dbg"):
            setattr(self, k, r[k])
        for k in ("impl_self", "impl_trait", "item", "vis", "sig", "exp"):
            setattr(self, k, r.get(k))

    def ty(self, l):
        return self.locals[l]["ty"]


class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.crate = d["crate"]
        self.bodies = d["bodies"]
        self.hir_blocks = d["blocks"]
        self.unsafe = d["unsafe"]
        self.impls = d["impls"]
        self.adts = {a["name"]: a for a in d["adts"]}
        self.fns = {}
        for r in d["fns"]:
            f = Fn(r, self.crate)
            n = f.name
            k = 2
            while n in self.fns:
                n = f"{f.name}#{k}"
                k += 1
            f.name = n
            self.fns[n] = f
        self.by_item = {}
        for f in self.fns.values():
            self.by_item.setdefault(f.item, []).append(f)


def pl(p):
    s = f"_{p[0]}"
    for e in p[1]:
        if e[0] == "D":
            s = f"(*{s})"
        elif e[0] == "F":
            s += f".{e[2]}"
        elif e[0] == "I":
            s += f"[_{e[1]}]"
        elif e[0] == "C":
            s += f"[{'-' if e[2] else ''}{e[1]}]"
        elif e[0] == "V":
            s += f" as {e[2]}"
        else:
            s += str(e)
    return s


def op(o):
    if o["k"] in ("copy", "move"):
        return pl(o["p"])
    if o["k"] == "fn":
        return "fn " + o.get("resolved", o["path"]) + ("*" if o.get("local") else "") + "<" + ",".join(o["args"]) + ">"
    return "const " + json.dumps(o["v"][1:] if len(o["v"]) > 1 else o["v"], ensure_ascii=False)


def rv(r):
    k = r["k"]
    if k == "use":
        return op(r["o"])
    if k == "ref":
        return ("&mut " if r["mut"] else "&") + pl(r["p"])
    if k == "bin":
        return f"{r['op']}({op(r['a'])}, {op(r['b'])})"
    if k == "un":
        return f"{r['op']}({op(r['a'])})"
    if k == "cast":
        return f"{op(r['o'])} as {r['ty']}"
    if k == "discr":
        return f"discr({pl(r['p'])})"
    if k == "agg":
        return r["ak"] + (":" + r["adt"].split("::")[-1] + "::" + r["vn"] if r["ak"] == "adt" else "") + "(" + ", ".join(map(op, r["ops"])) + ")"
    if k == "repeat":
        return f"[{op(r['o'])}; {r['n']}]"
    return str(r)


def show(f, cleanup=False):
    out = [f"fn {f.name} ({f.file}:{f.line}) argc={f.argc}"]
    for i, l in enumerate(f.locals):
        out.append(f"  let _{i}: {l['ty']}" + (f"  // {l['n']}" if l["n"] else ""))
    for i, b in enumerate(f.blocks):
        if b["c"] and not cleanup:
            continue
        out.append(f" bb{i}:")
        for s in b["s"]:
            if s["k"] == "=":
                out.append(f"    {pl(s['p'])} = {rv(s['r'])}   // {s['l']}")
            else:
                out.append("    " + str(s))
        t = b["t"]
        k = t["k"]
        if k == "goto":
            x = f"goto bb{t['t']}"
        elif k == "switch":
            x = f"switch {op(t['o'])} " + ", ".join(f"{v}->bb{b2}" for v, b2 in t["c"]) + f", else->bb{t['e']}"
        elif k == "call":
            x = f"{pl(t['d'])} = {op(t['f'])}(" + ", ".join(map(op, t["a"])) + f") -> bb{t['t']}"
        elif k == "assert":
            x = f"assert {op(t['o'])}=={t['exp']} {t['m'][0]} -> bb{t['t']}"
        elif k == "drop":
            x = f"drop {pl(t['p'])} -> bb{t['t']}"
        else:
            x = k
        out.append(f"    {x}   // {b['l']}")
    return "\n".join(out)


if __name__ == "__main__":
    import sys
    p = Prog(sys.argv[1])
    if len(sys.argv) == 2:
        for n, f in p.fns.items():
            print(f.kind, n, len(f.blocks))
    else:
        for n, f in p.fns.items():
            if n == sys.argv[2] or (len(sys.argv) > 3 and sys.argv[2] in n):
                print(show(f))
