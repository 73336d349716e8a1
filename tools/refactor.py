#!/usr/bin/env python3
"""refactor.py SPEC.py [names]: applies behaviour-preserving edits to a scratch copy of /repo, one at a time, and runs the checks on each; development aid.
SPEC defines REFS: a list of (name, file, [(old, new), ...]) and CHECKS: prefixes of the checks to run"""
import os
import runpy
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = os.environ.get("RF_W", "/tmp/rf")
R = W + "/repo"
sys.path.insert(0, VERIF + "/sa")


def copy():
    shutil.rmtree(R, ignore_errors=True)
    shutil.copytree("/repo", R, ignore=shutil.ignore_patterns("target", ".git"))


def dump(crate="base"):
    out = f"{W}/{crate}.json"
    if os.path.exists(out):
        os.remove(out)
    code = f"""
import sys, shutil
sys.path.insert(0, {VERIF + '/sa'!r})
import base
base.BUILD = {W + '/b'!r}
base.REPO = {R!r}
class P:
    def __init__(s, p): shutil.copy(p, {out!r})
base.Prog = P
base.dump({crate!r})
"""
    env = {k: v for k, v in os.environ.items() if k != "MSDUMP_DEV"}
    r = subprocess.run([sys.executable, "-c", code], capture_output=True, text=True, env=env)
    return os.path.exists(out), r.stderr[-1500:]


def check(c):
    r = subprocess.run(["timeout", "900", sys.executable, VERIF + "/check.py", c], capture_output=True, text=True, cwd=VERIF,
                       env=dict(os.environ, MSDUMP_DEV=W, MSREPO=R))
    return c, r.returncode, r.stdout + r.stderr


def main():
    spec = runpy.run_path(sys.argv[1])
    from props import REGISTRY
    ids = [i for i in REGISTRY if any(i.startswith(p) for p in os.environ.get("RF_CHECKS", spec["CHECKS"]).split(","))]
    total = noisy = 0
    for name, fn, edits in spec[os.environ.get("RF_LIST", "REFS")]:
        if len(sys.argv) > 2 and name not in sys.argv[2:]:
            continue
        copy()
        p = os.path.join(R, fn)
        s = open(p, encoding="utf-8").read()
        for e in edits:
            old, new = e[:2]
            n = s.count(old)
            if n == 0 or n > 1 and len(e) < 3:
                print(f"{name}: old text found {n} times: {old[:80]!r}")
                break
            if len(e) > 2 and e[2] == "all":
                s = s.replace(old, new)
            elif len(e) > 2:
                parts = s.split(old)
                s = old.join(parts[:e[2] + 1]) + new + old.join(parts[e[2] + 1:])
            else:
                s = s.replace(old, new)
        else:
            open(p, "w", encoding="utf-8").write(s)
            ok, err = dump(spec.get("CRATE", "base"))
            if not ok:
                print(f"{name}: does not build\n{err}")
                continue
            total += 1
            with ThreadPoolExecutor(7) as ex:
                res = list(ex.map(check, ids))
            bad = [(c, rc, o) for c, rc, o in res if rc]
            noisy += bool(bad)
            print(f"{name}: " + ("quiet" if not bad else "ALARM " + " ".join(c for c, _, _ in bad)), flush=True)
            for c, rc, o in bad:
                lines = [x for x in o.splitlines() if x.startswith("  broken")] or o.splitlines()[-3:]
                for x in lines[:3]:
                    print(f"    {c} {x.strip()[:300]}", flush=True)
    print(f"{total} refactorings, {noisy} noisy")


main()
