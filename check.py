#!/usr/bin/env python3
"""check.py <property id>: decides one property on /repo's current tree by static analysis of its MIR."""
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "sa"))
import base  # noqa


def findings():
    out = {}
    p = os.path.join(HERE, "known_findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith("#"):
                d = json.loads(l)
                if d.get("status") == "open":
                    out[(d["property"], d["key"])] = d
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    from props import REGISTRY
    mod, fn, title = REGISTRY[pid]
    ck = base.Ck(pid)
    try:
        m = importlib.import_module("props." + mod)
        getattr(m, fn)(ck)
    except Exception as e:  # fail closed: what cannot be analysed is not shown to hold
        ck.fail("analysis:" + type(e).__name__, f"{e}".split("\n")[0][:400] + " | " + traceback.format_exc()[-1500:])
    kf = findings()
    bad = {}
    known = {}
    for key, okk, detail, where in ck.obs:
        if not okk:
            (known if (pid, key) in kf else bad).setdefault(key, (detail, where))
    n = len(ck.obs)
    good = sum(1 for o in ck.obs if o[1])
    if n == 0:
        bad["empty"] = ("no obligation was generated", "")
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": ck.rule,
            "obligations": n, "discharged": good,
            "functions_analysed": len(ck.analysed),
            "abstract_exit_paths": ck.paths,
            "abstract_block_steps": ck.steps,
            "functions": sorted(ck.analysed)[:80],
            "samples": [f"{'ok ' if o[1] else 'BAD'} {o[0]}" for o in (ck.obs[:12] + [o for o in ck.obs if not o[1]][:20])],
            "unmodelled_callees": dict(sorted(ck.unmodelled.items(), key=lambda kv: -kv[1])[:20]),
            "notes": ck.notes[:40],
        },
        "assumptions": ["standard-library calls behave as their transfer functions in sa/models.py say",
                        "unsigned arithmetic does not wrap (a debug build panics instead)"] + ck.assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(bad),
    }
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1, ensure_ascii=False)
    print(f"{pid} {title}: {good}/{n} obligations discharged, {len(ck.analysed)} functions, {ck.paths} abstract exits, {ev['wall_s']} s")
    for k, (d, w) in known.items():
        print(f"KNOWN-FINDING: property={pid} {k}: {d[:300]}")
    rp = os.path.join(HERE, "evidence", pid + ".violations.txt")
    if not bad and os.path.exists(rp):
        os.remove(rp)
    if bad:
        with open(rp, "w") as fh:
            for k, (d, w) in bad.items():
                fh.write(f"{k}\n  at {w}\n  {d}\n")
        for k, (d, w) in list(bad.items())[:40]:
            print(f"  broken: {k} [{w}] {d[:600]}")
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 1
        print(f"VIOLATION property={sys.argv[1] if len(sys.argv) > 1 else '?'} replay=internal-error")
    sys.exit(rc)
