#!/usr/bin/env python3
"""mkbug.py SPEC.py : writes seeded/<id>/ from a spec (edits on /repo's HEAD, demo source); development aid.
SPEC defines a list BUGS of dicts: id, property, edits=[(file, old, new[, nth])], needs, breaks, demo (rust main or python), kind"""
import json
import os
import runpy
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RS = '''#!/bin/bash
# builds the demonstration against the crate build.sh made and runs it in a scratch directory
D=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
T=$(mktemp -d) || exit 99
trap 'rm -rf "$T"' EXIT
R=$(ls -t "$PWD"/base/target/debug/deps/libms_toollib-*.rlib | head -1)
rustc --edition 2021 -A warnings -o "$T/demo" "$D/demo.rs" --extern ms_toollib="$R" -L dependency="$PWD/base/target/debug/deps" || exit 98
cd "$T" && timeout 60 ./demo
'''
PY = '''#!/bin/bash
# loads the python module build.sh made in a scratch directory
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 99
trap 'rm -rf "$T"' EXIT
cp "$PWD"/python_package/target/debug/libms_toollib.so "$T/ms_toollib.so" || exit 98
cp "$D/demo.py" "$T/demo.py"
cd "$T" && PYTHONPATH="$T" timeout 60 /usr/bin/python3 demo.py
'''
for b in runpy.run_path(sys.argv[1])["BUGS"]:
    if len(sys.argv) > 2 and b["id"] not in sys.argv[2:]:
        continue
    d = os.path.join(VERIF, "seeded", b["id"])
    os.makedirs(d, exist_ok=True)
    subprocess.run(["git", "-C", "/repo", "diff", "--quiet"], check=True)
    for e in b["edits"]:
        fn, old, new = e[:3]
        nth = e[3] if len(e) > 3 else None
        p = os.path.join("/repo", fn)
        s = open(p).read()
        n = s.count(old)
        assert n >= 1 and (n == 1 or nth is not None), (b["id"], fn, n, old)
        parts = s.split(old)
        k = nth or 0
        s = old.join(parts[:k + 1]) + new + old.join(parts[k + 1:])
        open(p, "w").write(s)
    diff = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout
    subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."], check=True)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1, ensure_ascii=False)
    py = b.get("kind") == "py"
    open(os.path.join(d, "demo.sh"), "w").write(PY if py else RS)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    open(os.path.join(d, "demo.py" if py else "demo.rs"), "w").write(b["demo"])
    print(b["id"], len(diff.splitlines()), "diff lines")
